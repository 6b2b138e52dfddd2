import os
import shutil
import tempfile
from math import gcd
from rac.gen import *
from defdap.crystal import crystalStructures, SlipSystem, Phase
from defdap import crystal_utils as U

SYS = {'cubic': [((1, 1, 1), (0, 1, -1)), ((1, 1, 0), (-1, 1, 1)), ((1, 1, 2), (1, 1, -1)), ((1, 2, 3), (1, 1, -1)), ((1, 0, 0), (0, 1, 1))],
       'hexagonal': [((0, 0, 0, 1), (1, 1, -2, 0)), ((1, 0, -1, 0), (1, -2, 1, 0)), ((1, 0, -1, 1), (1, -2, 1, 0)),
                     ((1, 0, -1, 1), (1, 1, -2, -3)), ((1, 1, -2, 2), (1, 1, -2, -3)), ((1, 0, -1, 2), (1, 0, -1, -1))]}


def ops(name):
    return [np.array([s.transform_vector(e) for e in np.eye(3)]).T for s in crystalStructures[name].symmetries]


OPS = {k: ops(k) for k in SYS}


def basis(c):
    L = np.array([[np.sqrt(3) / 2, 0, 0], [-.5, 1, 0], [0, 0, c]])
    return L, np.linalg.inv(L).T


def cart(name, p, d, c):
    if name == 'cubic':
        a, b = np.array(p, float), np.array(d, float)
    else:
        L, Q = basis(c)
        a = Q @ np.array([p[0], p[1], p[3]], float)
        b = L @ np.array([d[0] - d[2], d[1] - d[2], d[3]], float)
    return a / np.linalg.norm(a), b / np.linalg.norm(b)


def system(rng, name):
    """a direction lying in a plane"""
    if rng.integers(2):
        p, d = SYS[name][rng.integers(len(SYS[name]))]
    else:
        while True:
            a = rng.integers(-3, 4, 3)
            b = rng.integers(-3, 4, 3)
            if not a.any() or not b.any():
                continue
            if name == 'cubic':
                d = np.cross(a, b)
                if not d.any():
                    continue
                p = a
            else:
                m = np.cross(a, b)
                if not m.any():
                    continue
                p = (a[0], a[1], -a[0] - a[1], a[2])
                d = (2 * m[0] - m[1], 2 * m[1] - m[0], -m[0] - m[1], 3 * m[2])
            break
        p, d = [int(x) for x in p], [int(x) for x in d]
        p, d = [tuple(x // gcd(*v) for x in v) for v in (p, d)]
    return p, d


def neg(v):
    return tuple(-x for x in v)


def make(rng, name, p, d, c):
    k = rng.integers(3)
    f = [tuple, np.array, lambda v: np.array(v, dtype=np.int8)][k]
    if max(map(abs, p + d)) > 100:
        f = np.array
    return SlipSystem(f(p), f(d), crystalStructures[name], **({'c_over_a': c} if name == 'hexagonal' or rng.integers(2) else {}))


def build(rng, i, log):
    name = ['cubic', 'hexagonal'][rng.integers(2)]
    c = float(rng.choice([1.5, 1.587, 1.633, 1.89]))
    p, d = system(rng, name)
    log.update(name=name, p=p, d=d, c=c)
    s = make(rng, name, p, d, c)
    n, b = cart(name, p, d, c)
    close(s.slip_plane, n, 'plane normal')
    close(s.slip_dir, b, 'slip direction')
    close(s.slip_plane @ s.slip_plane, 1, 'unit normal')
    close(s.slip_dir @ s.slip_dir, 1, 'unit direction')
    close(s.slip_plane @ s.slip_dir, 0, 'direction lies in the plane')
    assert tuple(int(x) for x in s.plane_idc) == tuple(p) and tuple(int(x) for x in s.dir_idc) == tuple(d)
    lab = lambda v: ''.join(str(x) if x >= 0 else str(-x) + '\u0305' for x in v)
    assert s.slip_plane_label == '(' + lab(p) + ')' and s.slip_dir_label == '[' + lab(d) + ']', f'labels {s}'
    assert str(s) == s.slip_plane_label + s.slip_dir_label
    # equality
    for P in (p, neg(p)):
        for D in (d, neg(d)):
            t = make(rng, name, P, D, c)
            assert s == t and t == s and hash(s) == hash(t), f'{s} and {t} are the same system'
    p2, d2 = system(rng, name)
    t = make(rng, name, p2, d2, c)
    same = (p2 in (p, neg(p))) and (d2 in (d, neg(d)))
    assert (s == t) == same and (not same or hash(s) == hash(t)), f'{s} == {t} is {s == t}'
    # same plane, other direction; same direction, other plane
    t = make(rng, name, p, d2, c)
    assert (s == t) == (d2 in (d, neg(d)))
    t = make(rng, name, p2, d, c)
    assert (s == t) == (p2 in (p, neg(p)))


def canon(name, p, d, c):
    return U.pos_idc(p), U.pos_idc(d)


def family(rng, i, log):
    name = ['cubic', 'hexagonal'][rng.integers(2)]
    c = float(rng.choice([1.5, 1.587, 1.633, 1.89]))
    p, d = system(rng, name)
    log.update(name=name, p=p, d=d, c=c)
    s = make(rng, name, p, d, c)
    fam = list(s.generate_family())
    n, b = cart(name, p, d, c)
    imgs = []
    for m in OPS[name]:
        x, y = m @ n, m @ b
        if not any(min(np.abs(x - u).max(), np.abs(x + u).max()) < 1e-6 and min(np.abs(y - v).max(), np.abs(y + v).max()) < 1e-6 for u, v in imgs):
            imgs.append((x, y))
    assert len(fam) == len(imgs), f'family of {len(fam)} systems instead of {len(imgs)}'
    hit = set()
    for f in fam:
        assert all(float(x) == int(x) for x in f.plane_idc + f.dir_idc)
        k = [j for j, (u, v) in enumerate(imgs)
             if min(np.abs(f.slip_plane - u).max(), np.abs(f.slip_plane + u).max()) < 1e-6
             and min(np.abs(f.slip_dir - v).max(), np.abs(f.slip_dir + v).max()) < 1e-6]
        assert len(k) == 1, f'{f} is not related by symmetry'
        hit.add(k[0])
        assert tuple(map(int, f.plane_idc)) == tuple(map(int, U.pos_idc(f.plane_idc)))
    assert len(hit) == len(imgs), 'systems of the family are missing'
    assert s in fam, 'a system belongs to its family'
    if name == 'hexagonal':
        assert all(abs(f.c_over_a - c) < 1e-12 for f in fam)


def grouping(rng, i, log):
    name = ['cubic', 'hexagonal'][rng.integers(2)]
    c = 1.6
    ss, idc = [], []
    for _ in range(int(rng.integers(1, 4))):
        p, d = system(rng, name)
        fam = list(make(rng, name, p, d, c).generate_family())
        for f in fam:
            P, D = tuple(map(int, f.plane_idc)), tuple(map(int, f.dir_idc))
            if rng.integers(3) == 0:
                P = neg(P)
            if rng.integers(3) == 0:
                D = neg(D)
            if (U.pos_idc(P), U.pos_idc(D)) not in [(U.pos_idc(a), U.pos_idc(b)) for a, b in idc]:
                idc.append((P, D))
    order = rng.permutation(len(idc))[:int(rng.integers(1, 25))]
    idc = [idc[k] for k in order]
    log.update(name=name, idc=idc)
    d0 = tempfile.mkdtemp()
    try:
        fn = os.path.join(d0, 'ss.txt')
        cols = ['red', 'blue', 'g', 'k'][:int(rng.integers(1, 5))]
        with open(fn, 'w') as f:
            f.write('# Plane normal then slip direction\n' + ','.join(cols) + '\n')
            for P, D in idc:
                f.write('\t'.join(map(str, P + D)) + '\n')
        cs = crystalStructures[name]
        for by in ('plane', 'family', None):
            g, colours = SlipSystem.load(fn, cs, c_over_a=c, **({} if by == 'plane' and rng.integers(2) else {'group_by': by}))
            assert colours == cols
            key = lambda s: (tuple(map(int, s.plane_idc)), tuple(map(int, s.dir_idc)))
            if by is None:
                assert [key(s) for s in g] == idc, 'file order'
                continue
            flat = [key(s) for x in g for s in x]
            assert sorted(flat) == sorted(idc), 'each system in exactly one group'
            if by == 'plane':
                cls = lambda k: U.pos_idc(k[0])
            else:
                fams = []

                def cls(k):
                    s = SlipSystem(k[0], k[1], cs, c_over_a=c)
                    for n, f in enumerate(fams):
                        if s in f:
                            return n
                    fams.append(list(s.generate_family()))
                    return len(fams) - 1
            want = []
            for k in idc:
                q = cls(k)
                for w in want:
                    if w[0] == q:
                        w[1].append(k)
                        break
                else:
                    want.append((q, [k]))
            assert [[key(s) for s in x] for x in g] == [w[1] for w in want], f'groups by {by}, in file order'
        # refused files
        with open(fn, 'w') as f:
            f.write('#\nred\n' + '\n'.join('\t'.join(map(str, (P + D)[:-1])) for P, D in idc) + '\n')
        for loader in (lambda: SlipSystem.load(fn, cs, c_over_a=c), lambda: SlipSystem.load(os.path.join(d0, 'none.txt'), cs, c_over_a=c),
                       lambda: SlipSystem.group(SlipSystem.load(fn, cs, c_over_a=c), 'x')):
            try:
                loader()
            except Exception:
                pass
            else:
                raise AssertionError('wrong file accepted')
        try:
            SlipSystem.group([make(rng, name, *idc[0], c)], 'other')
        except ValueError:
            pass
        else:
            raise AssertionError('unknown grouping accepted')
    finally:
        shutil.rmtree(d0)


def phases(rng, i, log):
    pi = np.pi
    c = float(rng.uniform(1.4, 1.9))
    for args, ss, n in (((11, 225, (4, 4, 4, pi / 2, pi / 2, pi / 2)), 'cubic_fcc', 12), ((11, 229, (4, 4, 4, pi / 2, pi / 2, pi / 2)), 'cubic_bcc', None),
                        ((9, 194, (3, 3, 3 * c, pi / 2, pi / 2, 2 * pi / 3)), 'hexagonal_withca', None),
                        ((11, 200, (4, 4, 4, pi / 2, pi / 2, pi / 2)), None, None)):
        p = Phase('x', *args)
        assert p.ss_file == ss, f'slip system file {p.ss_file}'
        if ss is None:
            assert p.slip_systems is None
            continue
        if args[0] == 9:
            close(p.c_over_a, c, 'c over a')
        for g in p.slip_systems:
            for s in g:
                assert U.pos_idc(s.plane_idc) == U.pos_idc(g[0].plane_idc)
                close(s.slip_plane @ s.slip_dir, 0, 'direction lies in the plane')
                assert args[0] != 9 or abs(s.c_over_a - c) < 1e-9
        flat = [s for g in p.slip_systems for s in g]
        assert len(set(flat)) == len(flat)
        assert n is None or len(flat) == n
        fams = []
        for s in flat:
            if not any(s in f for f in fams):
                fams.append(s.generate_family())
        for f in fams:
            assert all(any(s == t for t in flat) for s in f) or ss == 'hexagonal_withca', 'family incomplete'
    for bad in ((5, 225), (0, 225)):
        try:
            Phase('x', *bad, (1, 1, 1, 1, 1, 1))
        except ValueError:
            pass
        else:
            raise AssertionError('unknown Laue group accepted')


def wrong(rng, i, log):
    cs = crystalStructures
    for f in (lambda: SlipSystem((0, 0, 0, 1), (1, 1, -2, 0), cs['hexagonal']), lambda: SlipSystem((0, 0, 1), (1, 1, 0), cs['hexagonal'], c_over_a=1.6),
              lambda: SlipSystem((0, 0, 0, 1), (1, 1, 0), cs['hexagonal'], c_over_a=1.6)):
        try:
            f()
        except Exception:
            continue
        raise AssertionError('wrong slip system accepted')


CASES = {'build': (build, 200), 'family': (family, 60), 'grouping': (grouping, 60), 'phases': (phases, 2), 'wrong': (wrong, 1)}
