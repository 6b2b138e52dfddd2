"""C19: grain data and map data."""
from pydv.contract import *
import itertools
from pydv.points import Points, Distinct, Family

LEVEL = 'proof'
NOTE = '''Grains of any number of distinct points inside maps of any size; data of order 0 to 2; the map built from grain values for lists of any
number of grains.'''
ASSUME = [
    'the points of a grain are distinct and inside the map, and grains do not share points (C14, C15)',
    'floating point is treated as exact real arithmetic',
    'BOUNDED: the coarse image of a grain (grain_map_data_coarse) is checked on runs only',
]
TARGETS = {}
target = register(TARGETS)


def grain(m, n, pts, gid=0):
    """a grain of the map with the given points"""
    B = S().base
    g = B.Grain.__new__(B.Grain)
    B.Grain.__init__(g, gid, m, None)
    g.data.point = pts.array()
    return g


def new_map(h, w):
    B, U = S().base, S().utils

    class Map:
        shape = (h, w)
        y_dim, x_dim = h, w
    m = Map()
    m.data = U.Datastore()
    return m


LEADS = {0: (), 1: (3,), 2: (2, 3)}


def setup(ctx):
    h, w, n = dims('h', 'w', 'n')
    m = new_map(h, w)
    ps = Points(n, w, h, 'pt')
    return m, grain(m, n, ps), ps, h, w, n


@target('values', functions=['base.Grain.grain_data'])
def t1(ctx):
    """the list of a map component, asked for through the store of the grain"""
    m, g, ps, h, w, n = setup(ctx)
    for order, lead in LEADS.items():
        v = arr((*lead, h, w), f'v{order}')
        m.data.add(f'v{order}', v, type='map', order=order)
        m.data.add(f'l{order}', arr((*lead, h), f'other{order}'), type='list', order=order)
    for order, lead in LEADS.items():
        v = m.data[f'v{order}']
        for name, d in (('asked', g.data[f'v{order}']), ('given', g.grain_data(v))):
            ctx.prove(f'{name}: axes', len(d.shape) == order + 1)
            for a, b in zip(d.shape, (*lead, n)):
                same(ctx, f'{name}: shape', a, b)
            i = generic_index((*lead, n), 'g')
            x, y = ps.xy(i[-1])
            same(ctx, f'{name}: the value at the point, in order', d.get(i), v.get((*i[:-1], y, x)))
    ctx.prove('what is no map is not listed', 'l0' not in g.data and 'v0' in g.data)


def box(ctx, g, ps, n):
    """what the extreme coordinates are (C20)"""
    e = g.extreme_coords
    return e


@target('image', functions=['base.Grain.grain_map_data', 'base.Grain.grain_data', 'base.Grain.extreme_coords'])
def t2(ctx):
    """image of the values of a grain, given as a map or as a list, of numbers or colours"""
    m, g, ps, h, w, n = setup(ctx)
    v = arr((h, w), 'v')
    lst = arr((n,), 'lst')
    rgb = arr((n, 3), 'rgb')
    bg = rvar('bg')
    for name, kw, f, extra in (('map', dict(map_data=v), lambda k: v.get((ps.xy(k)[1], ps.xy(k)[0])), ()),
                               ('list', dict(grain_data=lst), lambda k: lst.get((k,)), ()),
                               ('list first', dict(map_data=v, grain_data=lst), lambda k: lst.get((k,)), ()),
                               ('colours', dict(grain_data=rgb), None, (3,))):
        im = g.grain_map_data(bg=bg, **kw)
        x0, y0, x1, y1 = g.extreme_coords
        ctx.prove(f'{name}: axes', len(im.shape) == 2 + len(extra))
        for a, b in zip(im.shape, (y1 - y0 + 1, x1 - x0 + 1, *extra)):
            same(ctx, f'{name}: shape', a, b)
        k = generic_index((n,), 'g')[0]
        x, y = ps.xy(k)
        for c in range(3 if extra else 1):
            c = (c,) if extra else ()
            e = rgb.get((k, *c)) if extra else f(k)
            same(ctx, f'{name}: the value at its point', im.get((y - y0, x - x0, *c)), e)
        j, i = generic_index((y1 - y0 + 1, x1 - x0 + 1), 'o')
        with ctx.scope([not_(ps.member(i + x0, j + y0))]):
            for c in range(3 if extra else 1):
                same(ctx, f'{name}: background elsewhere', im.get((j, i, *((c,) if extra else ()))), bg)


@target('image_nothing', functions=['base.Grain.grain_map_data'])
def t3(ctx):
    m, g, ps, h, w, n = setup(ctx)
    try:
        g.grain_map_data()
    except ValueError:
        ctx.prove('refused without data', True)
    else:
        ctx.prove('refused without data', False)


def many(ctx):
    """a map with any number N of grains, which share no points"""
    h, w, N = dims('h', 'w', 'N')
    m = new_map(h, w)
    fam = Family(N, w, h, 'pts')
    lists = {}

    class Many(type(m)):
        def _dv_len(self):
            return N

        def __getitem__(self, i):
            g = grain(self, None, fam.of(i), i)
            for k, f in lists.items():
                g.data.add(k, f(i), type='list', order=0)
            return g

        def _dv_domain(self):
            from pydv.loops import SeqDomain
            return SeqDomain(N, lambda k: self[k])
        _dv_loop = True
    m.__class__ = Many
    return m, h, w, N, fam, lists


def chosen(ctx, N):
    """all grains, or a list of K different ones"""
    K = dims('K')
    d = Distinct(K, 'id', 0, N)
    return ('all', {}, N, lambda k: k, None), ('some', dict(grain_ids=d.array()), K, d.at, d)


@target('average', functions=['base.Map.calc_grain_average', 'base.Grain.grain_data'])
def t4(ctx):
    """grain averages of any list of grain ids, and of all grains"""
    m, h, w, N, fam, _ = many(ctx)
    v = arr((h, w), 'v')
    for name, kw, length, gid, _ in chosen(ctx, N):
        av = S().base.Map.calc_grain_average(m, v, **kw)
        ctx.prove(f'{name}: one axis', len(av.shape) == 1)
        same(ctx, f'{name}: one value per grain', av.shape[0], length)
        k = generic_index((length,), 'g')[0]
        ps = fam.of(gid(k))
        values = SArr.fn((ps.n,), lambda i: v.get(ps.xy(i[0])[::-1]), 'f')
        same(ctx, f'{name}: the mean of the values at the points', av.get((k,)), values.mean())


def shown(ctx, name, im, h, w, fam, length, gid, dist, value, bg, extra=()):
    ctx.prove(f'{name}: axes', len(im.shape) == 2 + len(extra))
    for a, b in zip(im.shape, (h, w, *extra)):
        same(ctx, f'{name}: shape', a, b)
    k = generic_index((length,), 'g')[0]
    ps = fam.of(gid(k))
    j = generic_index((ps.n,), 'j')[0]
    x, y = ps.xy(j)
    for c in range(3 if extra else 1):
        c = (c,) if extra else ()
        same(ctx, f'{name}: the value of the grain at its points', im.get((y, x, *c)), value((k, *c)))
    y, x = generic_index((h, w), 'o')
    o, inside = fam.member(x, y)
    if dist is not None:
        r = dist.rank(o)
        inside = and_(inside, r >= 0, r < length, mk(dist.at(r) == o))
        fam.of(dist.at(r)).member(x, y)      # instances
    with ctx.scope([not_(inside)]):
        for c in range(3 if extra else 1):
            same(ctx, f'{name}: background elsewhere', im.get((y, x, *((c,) if extra else ()))), bg)


def per_grain(ctx, which, colour):
    m, h, w, N, fam, _ = many(ctx)
    name, kw, length, gid, dist = chosen(ctx, N)[which]
    v = arr((length, 3), 'rgb') if colour else arr((length,), 'v')
    bg = rvar('bg')
    im = S().base.Map.grain_data_to_map_data(m, v, bg=bg, **kw)
    shown(ctx, name, im, h, w, fam, length, gid, dist, v.get, bg, (3,) if colour else ())


@target('per_grain_all', functions=['base.Map.grain_data_to_map_data'])
def t6(ctx):
    per_grain(ctx, 0, False)


@target('per_grain_some', functions=['base.Map.grain_data_to_map_data'])
def t7(ctx):
    per_grain(ctx, 1, False)


@target('colour_all', functions=['base.Map.grain_data_to_map_data'])
def t8(ctx):
    per_grain(ctx, 0, True)


@target('colour_some', functions=['base.Map.grain_data_to_map_data'])
def t9(ctx):
    per_grain(ctx, 1, True)


@target('one_grain', functions=['base.Map.grain_data_to_map_data'])
def t10(ctx):
    """a single grain given by its number"""
    m, h, w, N, fam, _ = many(ctx)
    ctx.fact(N > 7)
    v = arr((1,), 'v')
    bg = rvar('bg')
    im = S().base.Map.grain_data_to_map_data(m, v, grain_ids=7, bg=bg)
    ps = fam.of(7)
    j = generic_index((ps.n,), 'j')[0]
    x, y = ps.xy(j)
    same(ctx, 'the value at its points', im.get((y, x)), v.get((0,)))
    y, x = generic_index((h, w), 'o')
    with ctx.scope([not_(ps.member(x, y))]):
        same(ctx, 'background elsewhere', im.get((y, x)), bg)


def back(ctx, lead):
    """grain lists mapped back to an image"""
    m, h, w, N, fam, lists = many(ctx)

    def data(i):
        n = fam.of(i).n
        return SArr.fn((*lead, n), lambda g: rapp('value', (i, *g)), 'f')
    lists['item'] = data
    im = S().base.Map.grain_data_to_map(m, 'item')
    ctx.prove('axes', len(im.shape) == 2 + len(lead))
    for a, b in zip(im.shape, (*lead, h, w)):
        same(ctx, 'shape', a, b)
    k = generic_index((N,), 'g')[0]
    ps = fam.of(k)
    g = generic_index((*lead, ps.n), 'j')
    x, y = ps.xy(g[-1])
    same(ctx, 'the value at its point', im.get((*g[:-1], y, x)), rapp('value', (k, *g)))
    l = generic_index((*lead, h, w), 'o')
    with ctx.scope([not_(fam.member(l[-1], l[-2])[1])]):
        same(ctx, 'zero elsewhere', im.get(l), SReal.const(0))


@target('back_0', functions=['base.Map.grain_data_to_map'])
def t11(ctx):
    back(ctx, ())


@target('back_1', functions=['base.Map.grain_data_to_map'])
def t12(ctx):
    back(ctx, (3,))


@target('back_2', functions=['base.Map.grain_data_to_map'])
def t13(ctx):
    back(ctx, (2, 2))


@target('refused', functions=['base.Map.grain_data_to_map_data'])
def t5(ctx):
    h, w, N, K = dims('h', 'w', 'N', 'K')
    m = new_map(h, w)
    type(m)._dv_len = lambda self: N
    ctx.fact(K != N)
    try:
        S().base.Map.grain_data_to_map_data(m, arr((K,), 'v'))
    except ValueError:
        ctx.prove('wrong number of values refused', True)
    else:
        ctx.prove('wrong number of values refused', False)


@target('component', functions=['base.Map._extract_component', 'base.Grain._extract_component', 'base.Grain.grain_data'])
def t14(ctx):
    """a component of the values of a grain is the component of the map at its points"""
    B = S().base
    m, g, ps, h, w, n = setup(ctx)
    for order, lead in LEADS.items():
        v = arr((*lead, h, w), f'v{order}')
        lst = g.grain_data(v)
        comps = {0: [None], 1: [(0,), (2,), 'norm'], 2: [(0, 1), (1, 2), 'norm', 'NORM']}[order]
        for comp in comps:
            a, b = B.Map._extract_component(m, v, comp), B.Grain._extract_component(g, lst, comp)
            ctx.prove(f'order {order} {comp}: axes', len(a.shape) == 2 and len(b.shape) == 1)
            for p, q in zip((*a.shape, *b.shape), (h, w, n)):
                same(ctx, f'order {order} {comp}: shape', p, q)
            k = generic_index((n,), 'g')[0]
            x, y = ps.xy(k)
            same(ctx, f'order {order} {comp}: grain and map agree', b.get((k,)), a.get((y, x)))
            if isinstance(comp, tuple):
                same(ctx, f'order {order} {comp}: that component', b.get((k,)), v.get((*comp, y, x)))
            elif comp is not None:
                e = sum((v.get((*i, y, x)) * v.get((*i, y, x)) for i in itertools.product(*map(range, lead))), SReal.const(0))
                r = b.get((k,))
                ctx.prove(f'order {order} {comp}: norm', and_(r >= 0, mk(r * r == e)))
    for comp in (5, 'nonsense', 'ip'):
        for f in (lambda: B.Map._extract_component(m, arr((h, w), 'v'), comp), lambda: B.Grain._extract_component(g, arr((n,), 'l'), comp)):
            try:
                f()
            except ValueError:
                ctx.prove('unknown component refused', True)
            else:
                ctx.prove('unknown component refused', False)


def coloured(ctx, what):
    """colours: each pixel by its phase, the grain as the map; not indexed pixels in the background colour"""
    E, Q = S().ebsd, S().quat.Quat
    P = S().crystal.Phase
    h, w, n = dims('h', 'w', 'n')
    m = E.Map.__new__(E.Map)
    m.shape = (h, w)
    m.data = S().utils.Datastore()
    ps = Points(n, w, h, 'pt')
    r = np.pi / 2
    names = ['cubic', 'hexagonal']
    m.phases = [P('a', 11, 225, (1, 1, 1, r, r, r)), P('b', 9, 194, (1, 1, 2, r, r, 4 * r / 3))]
    ph = arr((h, w), 'phase', 'i')
    m.data.add('phase', ph, type='map', order=0)
    y, x = generic_index((h, w), 'p')
    ctx.fact(and_(ph.get((y, x)) >= 0, ph.get((y, x)) <= 2))
    direction = vec('dir')
    if what == 'ipf':
        q = arr((4, h, w), 'q')
        data = SArr.fn((h, w), lambda i: Q(*[q.get((j, *i)) for j in range(4)], allow_southern=True), 'O')

        def colours(quats, d, name):
            qs = quats.snap()
            return SArr.fn((3, qs.shape[0]), lambda i: sum((rapp(f'ipf_{name}{j}', (i[0],)) * c for j, c in enumerate(qs.get(i[1:]).quat_coef)),
                                                           SReal.const(0)), 'f')
        Q.calc_ipf_colours = staticmethod(colours)
        pixel = lambda s, y, x: [sum((rapp(f'ipf_{names[s]}{j}', (c,)) * q.get((j, y, x)) for j in range(4)), SReal.const(0)) for c in range(3)]
        comp = 'IPF_x'
    else:
        data = arr((3, h, w), 'euler')
        pi = T.PI() if callable(getattr(T, 'PI', None)) else np.pi
        norm = [[2 * pi, pi / 2, pi / 2], [pi, pi, pi / 3]]
        pixel = lambda s, y, x: [data.get((c, y, x)) / norm[s][c] for c in range(3)]
        comp = 'all_euler'
    bg = vec('bg')
    for name, kw, back in (('black', {}, [SReal.const(0)] * 3), ('background', dict(bg_colour=np.array(bg)), bg)):
        for sel, phases in ((None, (0, 1)), ([1], (1,)), ([1, 0], (0, 1))):
            if what == 'ipf':
                im = E.Map.calc_ipf_colour(m, data, np.array(direction), phases=sel, **kw)
            else:
                im = E.Map.calc_euler_colour(m, data, phases=sel, **kw)
            ctx.prove('colour axes', len(im.shape) == 3 and im.shape[2] == 3)
            same(ctx, 'height', im.shape[0], h)
            same(ctx, 'width', im.shape[1], w)
            for s in (0, 1, None):
                with ctx.scope([mk(ph.get((y, x)) == (0 if s is None else s + 1))]):
                    e = pixel(s, y, x) if s in phases else back
                    for c in range(3):
                        same(ctx, f'{name} {sel}: colour of phase {s}', im.get((y, x, c)), e[c])
    # the grain
    for s in (0, 1):
        g = E.Grain.__new__(E.Grain)
        S().base.Grain.__init__(g, 0, m, None)
        g.data.point = ps.array()
        E.Grain.phase = property(lambda self: m.phases[s])
        lst = g.grain_data(data)
        b = g._extract_component(lst, comp)
        ctx.prove('grain colour axes', len(b.shape) == 2 and b.shape[1] == 3)
        same(ctx, 'one colour per point', b.shape[0], n)
        k = generic_index((n,), 'g')[0]
        px, py = ps.xy(k)
        for c, v in enumerate(pixel(s, py, px)):
            same(ctx, f'grain of phase {s}: colour of the point', b.get((k, c)), v)


@target('euler_colour', functions=['ebsd.Map.calc_euler_colour', 'ebsd.Grain.calc_euler_colour', 'base.Grain._extract_component'])
def t15(ctx):
    coloured(ctx, 'euler')


@target('ipf_colour', functions=['ebsd.Map.calc_ipf_colour', 'ebsd.Grain.calc_ipf_colour', 'base.Grain._extract_component'])
def t16(ctx):
    coloured(ctx, 'ipf')
