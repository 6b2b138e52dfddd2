from rac.gen import *
from defdap.utils import Datastore, DataGenerationError


class Model:
    """reference: what a store should answer"""

    def __init__(self):
        self.items, self.gens, self.ders = {}, [], []

    def own(self):
        return list(self.items)

    def meta(self, k, a, d=None):
        if k in self.items:
            return self.items[k][1].get(a, d)
        x = self.der(k)
        if x is None:
            return d
        if a in x['out']:
            return x['out'][a]
        return x['src'].meta(k, a, d)

    def listed(self, x):
        return [k for k in x['src'].keys() if all(x['src'].meta(k, a) == v for a, v in x['in'].items())]

    def keys(self):
        return self.own() + [k for x in self.ders for k in self.listed(x)]

    def der(self, k):
        for x in self.ders:
            if k in self.listed(x):
                return x
        return None

    def get(self, k):
        if k not in self.items:
            x = self.der(k)
            if x is None:
                raise KeyError(k)
            return (x['name'], k if x['ref'] else x['src'].get(k))
        v, m = self.items[k]
        if v is None:
            for ks, g in self.gens:
                if k in ks:
                    g['count'] += 1
                    for j in ks:
                        if self.items[j][1].get('save', True):
                            self.items[j][0] = ('gen', g['id'], j)
                    v = ('gen', g['id'], k)
                    break
        if m.get('type') == 'map':
            if not m.get('cropped', False):
                v = ('crop', v, m.get('binning', 1))
            if m.get('apply_mask', True):
                v = ('mask', v)
        return v


def history(rng, i, log):
    crop = lambda v, binning=None: ('crop', v, binning)
    mask = lambda v: ('mask', v)
    full = rng.integers(4) > 0
    n = int(rng.integers(1, 6))
    S = [Datastore(crop_func=crop, mask_func=mask) for _ in range(n)]
    M = [Model() for _ in range(n)]
    counts = []
    ops = []
    log['history'] = ops
    names = ['a', 'b', 'c', 'grains', 'e', 'f']
    fs = []

    def rmeta():
        m = {}
        if rng.integers(2):
            m['type'] = str(rng.choice(['map', 'list', 'boundaries']))
        for a, vs in (('cropped', [True, False]), ('apply_mask', [True, False]), ('binning', [2, 3]), ('save', [False, True]),
                      ('unit', ['um', 'rad'])):
            if rng.integers(5) == 0:
                m[a] = vs[rng.integers(2)]
        return m

    def check(j):
        s, m = S[j], M[j]
        e = m.keys()
        assert list(s.keys()) == e, f'keys {list(s.keys())} instead of {e}'
        assert list(s) == e and len(s) == len(e)
        for k in names + ['nothing']:
            assert (k in s) == (k in e), f'membership of {k}'

    for step in range(int(rng.integers(3, 25))):
        j = int(rng.integers(n))
        s, m = S[j], M[j]
        k = str(rng.choice(names))
        op = int(rng.integers(9))
        if op == 0:
            v, md = ('v', step), rmeta()
            ops.append(('add', j, k, md))
            if k in m.keys():
                try:
                    s.add(k, v, **md)
                    raise AssertionError(f'{k} added twice')
                except ValueError:
                    pass
            else:
                s.add(k, v, **md)
                m.items[k] = [v, md]
        elif op == 1:
            ks = [k] + ([str(rng.choice(names))] if rng.integers(2) else [])
            if len(set(ks)) < len(ks) or any(x in m.keys() for x in ks):
                continue
            g = dict(id=len(counts), count=0, real=0)
            counts.append(g)
            mode = int(rng.integers(3))
            mds = [rmeta() for _ in ks] if mode else None
            common = rmeta() if rng.integers(2) else {}
            arg = mds if mds is None else tuple(dict(x) for x in mds)

            def f(g=g, ks=tuple(ks), **kw):
                g['real'] += 1
                r = [('gen', g['id'], x) for x in ks]
                return r[0] if len(r) == 1 else (r if g['id'] % 2 else tuple(r))
            ops.append(('add_generator', j, ks, mds, common))
            s.add_generator(ks[0] if len(ks) == 1 and rng.integers(2) else tuple(ks), f,
                            **({} if arg is None else dict(metadatas=arg[0] if len(ks) == 1 and mode == 1 else arg)), **common)
            if arg is not None:
                assert list(arg) == mds, 'metadata given was changed'
            for x, md in zip(ks, mds or [{} for _ in ks]):
                m.items[x] = [None, {**md, **common}]
            m.gens.append((ks, g))
        elif op == 2 and n > 1:
            t = int(rng.integers(n))
            if t <= j:              # sources have higher numbers
                continue
            inp = {} if rng.integers(3) == 0 else {'type': str(rng.choice(['map', 'list']))}
            out = {'type': 'list'} if rng.integers(2) else {}
            ref = bool(rng.integers(3) == 0)
            if len(fs) and rng.integers(3) == 0:
                nm, fn, jj = fs[rng.integers(len(fs))]
                if jj != j:
                    continue
            else:
                nm = ('d', len(fs))
                fn = (lambda v, nm=nm: (nm, v))
                fs.append((nm, fn, j))
            ops.append(('add_derivative', j, t, inp, out, ref, nm))
            x = dict(src=M[t], name=nm, out=out, ref=ref, **{'in': inp})
            s.add_derivative(S[t], fn, in_props=dict(inp), out_props=dict(out), pass_ref=ref)
            for q, y in enumerate(m.ders):
                if y['name'] == nm:
                    m.ders[q] = x
                    break
            else:
                m.ders.append(x)
        elif op == 3 and k in m.items:
            v = ('set', step)
            ops.append(('set', j, k))
            if rng.integers(2):
                s[k] = v
            else:
                setattr(s, k, v)
            m.items[k][0] = v
        elif op == 4 and k in m.items:
            a, v = ('unit', f'u{step}') if rng.integers(2) else ('type', 'map')
            ops.append(('set metadata', j, k, a, v))
            s[k, a] = v
            m.items[k][1][a] = v
        elif op == 5 and k not in m.keys():
            ops.append(('unknown', j, k))
            for f in (lambda: s[k], lambda: getattr(s, k), lambda: s[k, 'unit']):
                try:
                    f()
                    raise AssertionError(f'unknown {k} has a value')
                except KeyError as e:
                    assert k in str(e), 'the error does not name the item'
            try:
                s[k] = 1
                raise AssertionError(f'unknown {k} was set')
            except ValueError as e:
                assert k in str(e)
            assert s.get_metadata(k, 'unit', 'dflt') == 'dflt'
            try:
                s.generate(k)
                raise AssertionError('generated')
            except DataGenerationError:
                pass
        elif op == 6 and n > 1:
            t = int(rng.integers(n))
            if t == j:
                continue
            pr = bool(rng.integers(2))
            # the real store shares the records of the items taken over: the other store is left alone after this
            other = Datastore()
            oth = {x: (('o', step, x), rmeta()) for x in set(rng.choice(names, 2).tolist())}
            for x, (v, md) in oth.items():
                other.add(x, v, **md)
            ops.append(('update', j, oth, pr))
            s.update(other, **({'priority': 'self'} if pr else {}))
            order = list(oth)
            if pr:
                new = {x: [oth[x][0], dict(oth[x][1])] for x in order}
                new.update(m.items)
                m.items = new
            else:
                for x in order:
                    m.items[x] = [oth[x][0], dict(oth[x][1])]
            for x, (v, md) in oth.items():
                assert other._store[x]['data'] == v, 'other store changed'
            assert list(other.keys()) == order
            # order of keys is not part of the property
            assert sorted(s._store) == sorted(m.items)
            m.items = {x: m.items[x] for x in s._store}
        else:
            es = [x for x in m.keys()]
            if not es:
                continue
            k = es[rng.integers(len(es))]
            ops.append(('get', j, k))
            e = m.get(k)
            got = s[k] if rng.integers(2) else getattr(s, k)
            assert got == e, f'{k} is {got} instead of {e}'
            for a in ('type', 'unit', 'save'):
                assert s.get_metadata(k, a, 'dflt') == m.meta(k, a, 'dflt') or (k not in m.items and s.get_metadata(k, a, 'dflt') in ('dflt', None)
                        and m.meta(k, a, 'dflt') == 'dflt'), f'metadata {a} of {k}'
        for g in counts:
            assert g['real'] == g['count'], f"generator {g['id']} ran {g['real']} times instead of {g['count']}"
        check(j)
    for j in range(n):
        check(j)
        for k in list(M[j].keys()):
            e = M[j].get(k)
            assert S[j][k] == e, f'{k} is {S[j][k]} instead of {e}'


def special(rng, i, log):
    a, b = Datastore(), Datastore()
    a.add('x', 1, type='map')
    b.add('y', 2, type='map')
    f = lambda v: ('f', v)
    g = lambda v: ('g', v)
    a.add_derivative(b, f, in_props={'type': 'map'})
    b.add_derivative(a, g, in_props={'type': 'map'})
    for _ in range(2):
        assert sorted(a.keys()) == ['x', 'y'] and sorted(b.keys()) == ['x', 'y'], 'stores derived from each other'
        assert a.y == ('f', 2) and b.x == ('g', 1)
    a.add_derivative(a, lambda v: v)
    assert sorted(a.keys()) == ['x', 'y']
    assert a.y == ('f', 2) and 'y' in a and Datastore._been_to is None
    S = [Datastore() for _ in range(6)]
    S[5].add('x', 0, type='map')
    for j in range(5):
        S[j].add_derivative(S[j + 1], (lambda v, j=j: (j, v)), in_props={'type': 'map'})
    for s in S:
        assert list(s.keys()) == ['x'], 'derived over several steps'
    assert S[0].x == (0, (1, (2, (3, (4, 0)))))
    c = Datastore()
    c.add_generator(('p', 'q'), lambda: (1, 2, 3))
    try:
        c['p']
        raise AssertionError('wrong number of values accepted')
    except ValueError:
        pass
    c = Datastore()
    c.add_generator('m', lambda t=1: ('m', t))
    assert c.generate('m', return_val=True, t=5) == ('m', 5) and c.m == ('m', 5)
    assert c.generate('m', t=6) is None and c['m'] == ('m', 6)
    v = np.arange(3)
    c.add('arr', v)
    assert c.arr is v, 'the stored object'


CASES = {'history': (history, 1500), 'special': (special, 2)}
