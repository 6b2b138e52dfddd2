"""C09: the data store."""
from pydv.contract import *

LEVEL = 'proof'
NOTE = '''Each method for an arbitrary store: which keys and metadata exist, what they hold and what functions return are unknowns decided
on demand. Listing keys and searching derivatives run over stores of up to three items and two derivatives (bounded).'''
ASSUME = [
    'items, metadata values and generator and derivative functions are opaque: only their identity is used',
    'BOUNDED: up to two derivatives, generators of up to two keys, and up to three items when keys are listed',
    'histories: every public method is proved from an arbitrary store, so any sequence of calls is covered as long as the calls are not concurrent',
]
TARGETS = {}
target = register(TARGETS)


class Token:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'


N = [0]


def flip(name):
    """an unknown yes/no, decided by case split"""
    N[0] += 1
    return bool(bvar(f'{name}!{N[0]}'))


class Lazy(dict):
    """A mapping whose keys and values are unknown until asked for."""

    def __init__(self, make, name, keys=()):
        super().__init__()
        self.make, self.name = make, name
        self.no, self.writes, self.first = set(), [], {}

    def _ask(self, k):
        if dict.__contains__(self, k):
            return True
        if k in self.no:
            return False
        if not flip(f'{self.name} has {k}'):
            self.no.add(k)
            return False
        v = self.make(k)
        self.first[k] = v
        dict.__setitem__(self, k, v)
        return True

    def __contains__(self, k):
        return self._ask(k)

    def __getitem__(self, k):
        if not self._ask(k):
            raise KeyError(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        return dict.__getitem__(self, k) if self._ask(k) else d

    def __setitem__(self, k, v):
        self.writes.append((k, v))
        self.no.discard(k)
        dict.__setitem__(self, k, v)

    def _no(self, *a, **k):
        raise Unsupported('listing an unknown mapping')
    __iter__ = __len__ = keys = values = items = pop = _no


def record(k):
    def make(a):
        if a == 'type':
            return 'map' if flip('is a map') else 'list'
        if a in ('cropped', 'apply_mask', 'save'):
            return flip(a)
        if a == 'data':
            return None if flip('no data yet') else Token(f'data of {k}')
        return Token(f'{a} of {k}')
    r = Lazy(make, f'record {k}')
    r.first['data'] = v = make('data')
    dict.__setitem__(r, 'data', v)
    return r


def store(ctx, derived=False, methods=None, generators=None, derivatives=()):
    """an arbitrary store; keys are listed and derivatives are searched by contract"""
    U = S().utils
    N[0] = 0
    log = []

    class D(U.Datastore):
        __slots__ = ['log', 'der']

        def __contains__(self, k):
            return k in self._store or any(self.has(d, k) for d in self._derivatives)

        def keys(self):
            raise Unsupported('listing an unknown store')

        def has(self, d, k):
            key = (id(d), k)
            if key not in self.der:
                self.der[key] = flip(f'derived {k}')
            return self.der[key]

        def lookup_derivative_keys(self, d):
            me = self

            class Keys:
                def __contains__(self, k):
                    return me.has(d, k)
            return Keys()
    for n, f in (methods or {}).items():
        setattr(D, n, f)
    d = D.__new__(D)
    object.__setattr__(d, 'log', log)
    object.__setattr__(d, 'der', {})
    object.__setattr__(d, '_store', Lazy(record, 'store'))
    object.__setattr__(d, '_generators', generators if generators is not None else {})
    object.__setattr__(d, '_derivatives', list(derivatives))
    object.__setattr__(d, '_group_id', Token('group'))

    def crop(v, **k):
        r = Token('cropped')
        log.append(('crop', v, k, r))
        return r

    def mask(v, **k):
        r = Token('masked')
        log.append(('mask', v, k, r))
        return r
    object.__setattr__(d, '_crop_func', crop)
    object.__setattr__(d, '_mask_func', mask)
    return d


def outcome(f):
    try:
        return 'ok', f()
    except (PathAbort, Unsupported):
        raise
    except Exception as e:
        return type(e).__name__, e


def known(d, k):
    return dict.__contains__(d._store, k)


def access(ctx, d, k, raw, got, name):
    """what reading map or other data gives from the stored value"""
    r = dict.__getitem__(d._store, k)
    is_map = r.get('type') == 'map'
    crops = [x for x in d.log if x[0] == 'crop']
    masks = [x for x in d.log if x[0] == 'mask']
    v = raw
    if is_map and not r.get('cropped', False):
        ctx.prove(f'{name}: map data is cropped once', len(crops) == 1 and crops[0][1] is raw)
        b = r.get('binning', 1)
        ctx.prove(f'{name}: crop knows the binning', len(crops) == 1 and crops[0][2] == {'binning': b} and crops[0][2].get('binning') is b)
        v = crops[0][3] if crops else None
    else:
        ctx.prove(f'{name}: not cropped', not crops)
    if is_map and r.get('apply_mask', True):
        ctx.prove(f'{name}: map data is masked once, after the crop', len(masks) == 1 and masks[0][1] is v)
        v = masks[0][3] if masks else None
    else:
        ctx.prove(f'{name}: not masked', not masks)
    ctx.prove(f'{name}: the value', got is v)


@target('read_stored')
def t1(ctx):
    calls = []

    def generate(self, key, return_val=False, **k):
        calls.append((key, return_val))
        if flip('has a generator'):
            r = Token('generated')
            calls[-1] += (r,)
            return r
        raise S().utils.DataGenerationError('none')
    d = store(ctx, methods=dict(generate=generate, _get_derived_item=lambda self, k, a: Token('derived')))
    k = 'item'
    if not (k in d._store):
        return
    raw = dict.__getitem__(dict.__getitem__(d._store, k), 'data')
    by = flip('by attribute')
    st, v = outcome(lambda: getattr(d, k) if by else d[k])
    ctx.prove('reading gives a value', st == 'ok')
    if raw is None:
        ctx.prove('generated when there is no data', len(calls) == 1 and calls[0][:2] == (k, True))
        raw = calls[0][2] if calls and len(calls[0]) == 3 else None
    else:
        ctx.prove('not generated when there is data', not calls)
    access(ctx, d, k, raw, v, 'read')
    ctx.prove('reading changes nothing', not d._store.writes)


@target('read_metadata')
def t2(ctx):
    d = store(ctx, methods=dict(generate=lambda self, *a, **k: Token('generated'), _get_derived_item=lambda self, k, a: Token('derived')))
    k = 'item'
    if not (k in d._store):
        return
    r = dict.__getitem__(d._store, k)
    has = 'unit' in r
    st, v = outcome(lambda: d[k, 'unit'])
    if has:
        ctx.prove('metadata as stored', st == 'ok' and v is dict.__getitem__(r, 'unit'))
    else:
        ctx.prove('missing metadata is an error naming it', st == 'KeyError' and 'unit' in str(v) and k in str(v))
    ctx.prove('no crop or mask on metadata', not d.log)
    dflt = Token('default')
    g = d.get_metadata(k, 'unit', dflt)
    ctx.prove('get_metadata gives the value or the default', g is (dict.__getitem__(r, 'unit') if has else dflt))
    ctx.prove('default is None', d.get_metadata(k, 'unit') is (dict.__getitem__(r, 'unit') if has else None))
    ctx.prove('reading changes nothing', not d._store.writes and not r.writes)


def derivative(k, func=None, source=None):
    return dict(source=source, func=func or (lambda v: Token('f')), in_props={}, out_props={}, pass_ref=False)


@target('read_not_stored', max_paths=3000, bounded='up to two derivatives')
def t3(ctx):
    """an item that is not stored comes from the first derivative that lists it, otherwise the name is an error"""
    ds = [derivative(0), derivative(1)][:2 if flip('two derivatives') else 1 if flip('one derivative') else 0]
    log = []
    srcs = []
    for i, x in enumerate(ds):
        class Src:
            def __init__(self, i):
                self.i = i

            def __getitem__(self, ka):
                r = Token(f'source {self.i}')
                log.append((self.i, 'read', ka, r))
                return r

            def __contains__(self, k):
                # a listed item is one of the source, which may have others
                return d.has(ds[self.i], k) or flip(f'other item {self.i}')

            def __iter__(self):
                raise Unsupported('iteration over the source')
        x['source'] = Src(i)
        x['pass_ref'] = flip(f'by reference {i}')
        x['out_props'] = {'type': 'list', 'unit': ''} if flip(f'own type {i}') else {}

        def f(v, i=i):
            r = Token(f'derived {i}')
            log.append((i, 'func', v, r))
            return r
        x['func'] = f
    d = store(ctx, derivatives=ds)
    k = 'item'
    if k in d._store:
        return
    attr = 'data' if flip('data') else 'unit' if flip('unit') else 'type'
    st, v = outcome(lambda: d[k] if attr == 'data' else d[k, attr])
    hit = [i for i, x in enumerate(ds) if d.has(x, k)]
    if not hit:
        ctx.prove('unknown name is an error naming it', st == 'KeyError' and k in str(v))
        ctx.prove('no metadata: the default', d.get_metadata(k, attr, 'dflt') == 'dflt')
        return
    x = ds[hit[0]]
    ctx.prove('derived item has a value', st == 'ok')
    if attr in x['out_props']:
        ctx.prove('own metadata of the derivative', v == x['out_props'][attr] and not log)
    elif attr == 'data' and x['pass_ref']:
        ctx.prove('computed from the name', len(log) == 1 and log[0][:3] == (hit[0], 'func', k) and v is log[0][3])
    elif attr == 'data':
        ctx.prove('computed from the item of the source', len(log) == 2 and log[0][:3] == (hit[0], 'read', (k, attr))
                  and log[1][0] == hit[0] and log[1][1] == 'func' and log[1][2] is log[0][3] and v is log[1][3])
    else:
        ctx.prove('metadata of the source', len(log) == 1 and log[0][:3] == (hit[0], 'read', (k, attr)) and v is log[0][3])
    ctx.prove('nothing stored', not d._store.writes)
    if attr != 'data':
        n = len(log)
        w = d.get_metadata(k, attr)
        ctx.prove('get_metadata agrees', w == v or (len(log) > n and w is log[-1][3]))


@target('derivatives', bounded='up to two derivatives')
def t4(ctx):
    """search of the items of a source with the wanted properties"""
    U = S().utils
    names = ['a', 'b', 'c']
    props = {'type': 'map', 'other': 1}
    want = dict(list(props.items())[:2 if flip('two') else 1 if flip('one') else 0])
    has = {(n, p): flip(f'{n} {p}') for n in names for p in want}
    group = Token('src') if not flip('own group') else None
    d = U.Datastore()
    class Src:
        _group_id = d._group_id if group is None else group

        def __iter__(self):
            return iter(names)

        def get_metadata(self, k, a, v=None):
            return props[a] if has[(k, a)] else Token('different')
    out = d.lookup_derivative_keys(dict(source=Src(), in_props=want))
    if group is None:
        ctx.prove('a store does not derive from itself', list(out) == [])
    else:
        ctx.prove('exactly the items with the properties', list(out) == [n for n in names if all(has[(n, p)] for p in want)])
    ctx.prove('search ended', U.Datastore._been_to is None)
    # two stores deriving from each other
    a, b = U.Datastore(), U.Datastore()
    a.add('x', 1, type='map')
    b.add('y', 2, type='map')
    a.add_derivative(b, lambda v: ('a', v), in_props={'type': 'map'})
    b.add_derivative(a, lambda v: ('b', v), in_props={'type': 'map'})
    ctx.prove('keys of mutual derivatives', sorted(a.keys()) == ['x', 'y'] and sorted(b.keys()) == ['x', 'y'])
    ctx.prove('items of mutual derivatives', a['y'] == ('a', 2) and b['x'] == ('b', 1))


@target('derived_over_steps', bounded='a chain of derivations of five stores')
def t14(ctx):
    U = S().utils
    st = [U.Datastore() for _ in range(6)]
    v = Token('value')
    st[5].add('x', v, type='map')
    fs = [lambda y, i=i: (i, y) for i in range(5)]
    for i in range(5):
        st[i].add_derivative(st[i + 1], fs[i], in_props={'type': 'map'})
    e = v
    for i in reversed(range(5)):
        e = (i, e)
        ctx.prove(f'derived over {5 - i} steps', list(st[i].keys()) == ['x'] and st[i].x == e and st[i].get_metadata('x', 'type') == 'map')


@target('keys', bounded='up to three items')
def t5(ctx):
    U = S().utils
    n = 3 if flip('three') else 1 if flip('one') else 0
    lists = [['p', 'q'], ['r']][:2 if flip('two derivatives') else 1 if flip('one derivative') else 0]

    class D(U.Datastore):
        def lookup_derivative_keys(self, d):
            return list(lists[d['source']])
    d = D()
    names = ['a', 'b', 'c'][:n]
    for k in names:
        d.add(k, Token(k))
    for i in range(len(lists)):
        d._derivatives.append(dict(source=i))
    e = names + [k for x in lists for k in x]
    ctx.prove('keys', list(d.keys()) == e)
    ctx.prove('iteration', list(d) == e and [*d] == e)
    ctx.prove('length', len(d) == len(e))
    ctx.prove('membership', all((k in d) == (k in e) for k in ('a', 'b', 'c', 'p', 'q', 'r', 'z')))


@target('add')
def t6(ctx):
    d = store(ctx, derivatives=[derivative(0)] if flip('a derivative') else [])
    k, v, m = 'item', Token('value'), Token('unit')
    kw = dict(unit=m, **({'type': 'map'} if flip('with type') else {}))
    st, e = outcome(lambda: d.add(k, v, **kw))
    inn = (k in d._store.first) or any(d.has(x, k) for x in d._derivatives)
    if inn:
        ctx.prove('an existing name is refused', st == 'ValueError' and not d._store.writes and k in str(e))
        return
    ctx.prove('added', st == 'ok' and len(d._store.writes) == 1 and d._store.writes[0][0] == k)
    r = d._store.writes[0][1]
    ctx.prove('value and metadata stored', set(r) == {'data', *kw} and r['data'] is v and all(r[a] is kw[a] for a in kw))


@target('set')
def t7(ctx):
    d = store(ctx)
    k, v = 'item', Token('value')
    how = 'attr' if flip('by attribute') else 'meta' if flip('metadata') else 'key'

    def do():
        if how == 'attr':
            setattr(d, k, v)
        elif how == 'meta':
            d[k, 'unit'] = v
        else:
            d[k] = v
    st, e = outcome(do)
    if not known(d, k):
        ctx.prove('an unknown name is refused', st == 'ValueError' and k in str(e) and not d._store.writes)
        return
    r = dict.__getitem__(d._store, k)
    a = 'unit' if how == 'meta' else 'data'
    ctx.prove('only the item is set', st == 'ok' and not d._store.writes and r is d._store.first[k] and r.writes == [(a, v)])


@target('generate', max_paths=3000)
def t8(ctx):
    U = S().utils
    n = 2 if flip('two keys') else 1
    keys = tuple(f'g{i}' for i in range(n))
    other = Token('other generator')
    calls = []
    short = n > 1 and flip('too few values')

    def gen(**k):
        calls.append(k)
        vals = tuple(Token(f'v{i}') for i in range(n - (1 if short else 0)))
        gen.vals = vals
        return vals[0] if n == 1 else vals

    def wrong(**k):
        raise AssertionError('wrong generator')
    gens = {('x', 'y'): wrong, keys: gen} if flip('order') else {keys: gen, ('x',): wrong}
    d = store(ctx, generators=gens)
    for k in keys:
        if not (k in d._store):
            return
    k = keys[-1] if flip('last key') else keys[0]
    ret = flip('return value')
    arg = Token('arg')
    kw = {'misori': arg} if flip('argument') else {}
    if flip('no generator'):
        d._generators.pop(keys)
        st, e = outcome(lambda: d.generate(k, return_val=ret, **kw))
        ctx.prove('no generator is an error', st == 'DataGenerationError' and not calls)
        return
    st, v = outcome(lambda: d.generate(k, return_val=ret, **kw))
    ctx.prove('run once with the arguments', len(calls) == 1 and calls[0] == kw)
    if short:
        ctx.prove('wrong number of values is an error', st == 'ValueError')
        ctx.prove('nothing stored', not d._store.writes and all(not dict.__getitem__(d._store, x).writes for x in keys))
        return
    ctx.prove('generated', st == 'ok')
    for x, val in zip(keys, gen.vals):
        r = dict.__getitem__(d._store, x)
        if r.get('save', True):
            ctx.prove('remembered', r.writes == [('data', val)])
        else:
            ctx.prove('not remembered', r.writes == [])
    ctx.prove('value of the key', v is (gen.vals[keys.index(k)] if ret else None))


@target('generate_once')
def t9(ctx):
    """reading twice runs the generator once, unless the item is not to be saved"""
    U = S().utils
    d = U.Datastore()
    calls = []
    val = Token('value')
    save = flip('save')
    two = flip('two keys')

    def gen():
        calls.append(1)
        return (val, Token('b')) if two else val
    d.add_generator(('a', 'b') if two else 'a', gen, **({} if save else {'save': False}))
    ctx.prove('not run when registered', not calls and 'a' in d)
    ctx.prove('first reading', d['a'] is val and len(calls) == 1)
    ctx.prove('second reading', d.a is val and len(calls) == (1 if save else 2))
    if two:
        n = len(calls)
        d['b']
        ctx.prove('the other item', len(calls) == (n if save else n + 1))


@target('add_generator')
def t10(ctx):
    added = []

    def add(self, key, data, **kw):
        added.append((key, data, kw))
    d = store(ctx, methods=dict(add=add))
    f = Token('func')
    n = 2 if flip('two') else 1
    keys = ('a', 'b')[:n]
    how = 'none' if flip('no metadata') else 'dict' if n == 1 and flip('one dict') else 'tuple'
    ms = tuple({'unit': Token(f'u{i}')} for i in range(n))
    keep = [dict(m) for m in ms]
    u = [m['unit'] for m in ms]
    kw = {'type': Token('t')} if flip('keyword') else {}
    karg = 'a' if n == 1 and flip('string') else keys
    args = {} if how == 'none' else dict(metadatas=ms[0] if how == 'dict' else ms)
    d.add_generator(karg, f, **args, **kw)
    ctx.prove('registered', d._generators == {keys: f})
    ctx.prove('each key added without data', [(a, b) for a, b, _ in added] == [(k, None) for k in keys])
    for i, (_, _, m) in enumerate(added):
        e = dict(**({} if how == 'none' else keep[i]), **kw)
        ctx.prove('metadata', m == e)
    ctx.prove('arguments unchanged', all(m == k for m, k in zip(ms, keep)))


@target('add_derivative')
def t11(ctx):
    U = S().utils
    d = U.Datastore()
    f, g = Token('f'), Token('g')
    s, s2 = Token('s'), Token('s2')
    d.add_derivative(s, f)
    d.add_derivative(s, g, in_props={'type': 'map'}, out_props={'type': 'list'}, pass_ref=True)
    ctx.prove('two derivatives', len(d._derivatives) == 2)
    ctx.prove('first', d._derivatives[0] == dict(source=s, func=f, in_props={}, out_props={}, pass_ref=False))
    ctx.prove('second', d._derivatives[1] == dict(source=s, func=g, in_props={'type': 'map'}, out_props={'type': 'list'}, pass_ref=True))
    d.add_derivative(s2, f, in_props={'a': 1})
    ctx.prove('the same function again replaces the first', len(d._derivatives) == 2
              and d._derivatives[0] == dict(source=s2, func=f, in_props={'a': 1}, out_props={}, pass_ref=False) and d._derivatives[1]['func'] is g)


@target('update')
def t12(ctx):
    U = S().utils
    a, b = U.Datastore(), U.Datastore()
    va, vb, vx, vy = Token('va'), Token('vb'), Token('vx'), Token('vy')
    a.add('x', vx)
    a.add('k', va, unit='a')
    b.add('k', vb, unit='b')
    b.add('y', vy)
    pr = flip('priority of self')
    a.update(b, **({'priority': 'self'} if pr else {}))
    ctx.prove('all items', sorted(a.keys()) == ['k', 'x', 'y'] and a.x is vx and a.y is vy)
    ctx.prove('item in both', a.k is (va if pr else vb) and a['k', 'unit'] == ('a' if pr else 'b'))
    ctx.prove('other store unchanged', sorted(b.keys()) == ['k', 'y'] and b.k is vb and b.y is vy and b['k', 'unit'] == 'b')
    a.add('z', 1)
    ctx.prove('stores stay separate', 'z' not in b)


@target('fresh')
def t13(ctx):
    U = S().utils
    a, b = U.Datastore(), U.Datastore()
    ctx.prove('empty', len(a) == 0 and list(a.keys()) == [] and 'x' not in a)
    a.add('x', 1, type='map')
    a.add_generator('g', lambda: 2)
    ctx.prove('stores do not share items', len(b) == 0 and b._store is not a._store and b._generators is not a._generators
              and b._derivatives is not a._derivatives)
    ctx.prove('different groups', a._group_id != b._group_id)
    ctx.prove('given group', U.Datastore(group_id=a._group_id)._group_id is a._group_id)
    ctx.prove('without crop and mask functions map data is returned as stored', a.x == 1)
    c = U.Datastore(crop_func=lambda v, **k: ('c', v), mask_func=lambda v, **k: ('m', v))
    c.add('x', 1, type='map')
    ctx.prove('crop and mask functions used', c.x == ('m', ('c', 1)))
