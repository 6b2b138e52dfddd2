import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from rac.gen import *
from rac.c05 import some_quat, OPS, KEYS
from defdap import defaults, plotting
from defdap.quat import Quat
from defdap.plotting import PolePlot

P = {'stereographic': lambda v: np.array([v[1], -v[0]]) / (1 + v[2]),
     'lambert': lambda v: np.array([v[1], -v[0]]) * np.sqrt(2 / (1 + v[2]))}
NAMES = {'stereographic': ['stereographic', 'Stereo', 'equal angle', 'EqualAngle'], 'lambert': ['lambert', 'Equal Area', 'equalarea']}
FN = {'stereographic': PolePlot.stereo_project, 'lambert': PolePlot.lambert_project}
R3 = np.sqrt(3) / 2
CORNERS = {('cubic', 'up'): [(0, 0, 1), (0, 1, 1), (-1, 1, 1)], ('hexagonal', 'up'): [(0, 0, 1), (0, 1, 0), (-.5, R3, 0)],
           ('hexagonal', 'down'): [(0, 0, 1), (0, 1, 0), (.5, R3, 0)]}
CORNERS['cubic', 'down'] = CORNERS['cubic', 'up']
CORNERS = {k: [np.array(c, float) / np.linalg.norm(c) for c in v] for k, v in CORNERS.items()}


def lift(kind, xy):
    """direction with a given projection"""
    x, y = xy
    r2 = x * x + y * y
    if kind == 'stereographic':
        z = (1 - r2) / (1 + r2)
        return np.array([-y * (1 + z), x * (1 + z), z])
    z = 1 - r2 / 2
    f = np.sqrt((1 + z) / 2)
    return np.array([-y * f, x * f, z])


def project(rng, i, log):
    kind = str(rng.choice(list(P)))
    n = int(rng.integers(1, 6))
    v = np.array([unit(rng) for _ in range(n)])
    v = v[v[:, 2] > -.999]
    if not len(v):
        return
    s = rng.uniform(.1, 5, len(v))
    log.update(kind=kind, v=v, scale=s)
    want = np.array([P[kind](u) for u in v]).T
    f = PolePlot._validateProjection(str(rng.choice(NAMES[kind])))
    assert f is FN[kind]
    close(f(*(v * s[:, None]).T), want, 'projection of the directions')
    a, b = np.arccos(v[:, 2]), np.arctan2(v[:, 1], v[:, 0])
    flat = np.hypot(v[:, 0], v[:, 1]) > 1e-6
    close(np.array(f(a, b))[:, flat], want[:, flat], 'projection of the angles')
    close(f(*(v[0] * s[0])), want[:, 0], 'projection of one direction')
    close(f(float(a[0]), float(b[0])), [c[0] for c in f(a[:1], b[:1])], 'one pair of angles')


def drawn(p, kind):
    """corners and edges"""
    return [np.array([lift(kind, xy) for xy in l.get_xydata()]) for l in p.ax.lines]


def ipf(rng, i, log):
    kind = str(rng.choice(list(P)))
    sym = str(rng.choice(KEYS))
    conv = str(rng.choice(['up', 'down']))
    n = int(rng.integers(1, 8))
    qs = [some_quat(rng) for _ in range(n)]
    d = unit(rng)
    log.update(kind=kind, sym=sym, convention=conv, quats=qs, direction=d)
    old = defaults['ipf_triangle_convention']
    defaults['ipf_triangle_convention'] = conv
    try:
        quats = [Quat(*q) for q in qs]
        if rng.integers(2):
            p = quiet(Quat.plot_ipf, quats, d, sym, projection=kind)
        else:
            quats, qs = quats[:1], qs[:1]
            p = quiet(quats[0].plot_ipf, d, sym, projection=kind)
        corners = CORNERS[sym, conv]
        pts = np.asarray(p.img_layers[0].get_offsets())
        assert len(pts) == len(qs)
        for q, xy in zip(qs, pts):
            u = lift(kind, xy)
            close(P[kind](u), xy, 'point on the sphere')
            close(np.linalg.norm(u), 1, 'unit', 1e-6)
            c = np.array([m @ (mat(q) @ d) for m in OPS[sym]])
            c = np.concatenate([c, -c])
            assert np.abs(c - u).max(axis=1).min() < 1e-5, f'plotted direction {u} is no equivalent of the sample direction'
            # within the sector with those corners
            for j in range(3):
                nrm = np.cross(corners[j], corners[(j + 1) % 3])
                nrm *= np.sign(nrm @ corners[(j + 2) % 3]) / np.linalg.norm(nrm)
                assert nrm @ u > -1e-4, f'plotted direction {u} is outside the sector'
        # the outline is the sector
        sides = drawn(p, kind)
        assert len(sides) == 3
        got = set()
        for e in sides:
            ends = [min(range(3), key=lambda j: np.abs(corners[j] - e[t]).max()) for t in (0, -1)]
            for t, j in zip((0, -1), ends):
                close(e[t], corners[j], 'end of the outline', 1e-3)
            got.add(frozenset(ends))
            nrm = np.cross(e[0], e[-1])
            close(e @ nrm, np.zeros(len(e)), 'side on the great circle of its ends', 1e-7)
        assert len(got) == 3
        # labels at the corners
        txt = [np.array(t.get_position()) for t in p.ax.texts]
        assert len(txt) == 3
        for t, c in zip(txt, corners):
            near = min(np.abs(P[kind](k) - t).max() for k in corners)
            assert near < .02, 'label at a corner'
    finally:
        defaults['ipf_triangle_convention'] = old
        plt.close('all')


def line(rng, i, log):
    kind = str(rng.choice(list(P)))
    sym = str(rng.choice(KEYS))
    if sym == 'cubic':
        a, b = [tuple(int(v) for v in rng.integers(-2, 3, 3)) for _ in range(2)]
        ca, cb = [np.array(v, float) for v in (a, b)]
    else:
        def four():
            u, v, w = [int(x) for x in rng.integers(-2, 3, 3)]
            return (u, v, -u - v, w)
        a, b = four(), four()
        # Cartesian direction of u a1 + v a2 + t a3 + w c with x normal to a2 (a2 along y)
        x1, x2, x3 = np.array([R3, -.5, 0]), np.array([0, 1., 0]), np.array([-R3, -.5, 0])
        ca, cb = [v[0] * x1 + v[1] * x2 + v[2] * x3 + v[3] * np.array([0, 0, CA]) for v in (a, b)]
    syms, res = bool(rng.integers(2)), int(rng.integers(2, 6))
    log.update(kind=kind, sym=sym, start=a, end=b, syms=syms, res=res)
    ts = np.linspace(0, 1, res)
    if any(np.linalg.norm(ca + t * (cb - ca)) < 1e-6 for t in ts):
        return
    p = PolePlot('IPF', sym, projection=kind)
    k0 = len(p.ax.lines)
    try:
        quiet(p.add_line, a, b, plot_syms=syms, res=res)
        new = p.ax.lines[k0:]
        assert len(new) == (len(Quat.sym_eqv(sym)) if syms else 1)
        for l, s in zip(new, Quat.sym_eqv(sym)):
            m = mat(s.quat_coef) if l is not new[0] else np.eye(3)
            ea, eb = m @ ca, m @ cb
            if l is not new[0]:
                ea, eb = [-e if e[2] < -1e-12 else e for e in (ea, eb)]
                if abs(ea[2]) < 1e-9 or abs(eb[2]) < 1e-9:
                    continue            # side of the equator by rounding
            v = [ea + t * (eb - ea) for t in ts]
            if any(u[2] < -.99 * np.linalg.norm(u) or np.linalg.norm(u) < 1e-6 for u in v):
                continue
            close(l.get_xydata(), [P[kind](u / np.linalg.norm(u)) for u in v], 'points of the line', 1e-6)
    finally:
        plt.close('all')


CA = .8165
CASES = {'project': (project, 200), 'ipf': (ipf, 40), 'line': (line, 40)}
