from rac.gen import *
from rac.c12 import syms
from defdap import ebsd, plotting
from defdap.quat import Quat


class Obj:
    pass


class Mean:
    """a grain with chosen orientations"""


def grain(rng, g, qs, ref=None):
    gr = ebsd.Grain.__new__(ebsd.Grain)
    gr.data = Obj()
    gr.data.orientation = np.array([Quat(*q) for q in qs], dtype=object)
    gr.data.point = [(k, 0) for k in range(len(qs))]
    gr.phase = Obj()
    gr.phase.crystal_structure = Obj()
    gr.phase.crystal_structure.name = g
    gr.ref_ori = ref
    gr.mis_ori_list = gr.mis_ori_axis_list = gr.average_mis_ori = None
    return gr


def nearest(q, r, g):
    """equivalents of q, the best with the reference first: cosines and rotations q r^-1"""
    out = []
    for s in syms(g):
        p = qmul(qmul(s, q), [r[0], *(-np.array(r[1:]))])
        out.append(p if p[0] >= 0 else -p)
    return sorted(out, key=lambda p: -p[0])


def check(angle, axis, q, r, g, what):
    c = nearest(q, r, g)
    d = 2 * np.arctan2(np.linalg.norm(c[0][1:]), c[0][0])
    if angle is not None:
        assert np.isfinite(angle), f'{what}: angle {angle}'
        assert abs(angle - d) < 1e-6 + (3e-8 if d > 1e-4 else 2e-7), f'{what}: angle {angle} instead of {d}'
    if axis is None:
        return
    axis = np.asarray(axis)
    assert axis.shape == (3,) and np.isfinite(axis).all(), f'{what}: axis {axis}'
    assert abs(np.linalg.norm(axis) - d) < 1e-6, f'{what}: axis of length {np.linalg.norm(axis)} for {d}'
    # axis of one of the equivalents that are equally near (either sense for half turns)
    ok = []
    for p in c:
        if p[0] < c[0][0] - 1e-9:
            break
        n = np.linalg.norm(p[1:])
        v = p[1:] / n * d if n > 1e-12 else np.zeros(3)
        ok += [v] + ([-v] if p[0] < 1e-9 else [])
    assert min(np.abs(axis - v).max() for v in ok) < 2e-6, f'{what}: axis {axis} instead of {ok[0]}'


def orientations(rng, g):
    n = int(rng.choice([1, 1, 2, 3, 5, 9]))
    base = quat(rng)
    kind = int(rng.integers(4))
    qs = []
    for k in range(n):
        if kind == 0:
            q = base
        elif kind == 1:
            q = base + rng.normal(size=4) * .03
        elif kind == 2:
            q = qmul(syms(g)[int(rng.integers(len(syms(g))))], base + rng.normal(size=4) * .02)
        else:
            q = quat(rng)
        q = q / np.linalg.norm(q)
        qs.append(q if q[0] >= 0 else -q)
    return qs


def deviation(rng, i, log):
    g = ('cubic', 'hexagonal')[i % 2]
    qs = orientations(rng, g)
    log['group'], log['orientations'] = g, np.array(qs)
    ref = Quat(*quat(rng)) if rng.integers(3) == 0 else None
    if ref is not None:
        log['reference'] = ref.quat_coef
        if rng.integers(2):
            ref = Quat(*qs[0])
    gr = grain(rng, g, qs, ref)
    d, a = quiet(gr.calc_grod)
    r = gr.ref_ori
    if ref is not None:
        assert r is ref, 'the reference is kept'
    else:
        close(r.quat_coef, Quat.calc_average_ori(Quat.calc_sym_eqvs(gr.data.orientation, g)).quat_coef, 'average')
        if len(qs) == 1:
            check(0, None, qs[0], r.quat_coef, g, 'average of one point')
    assert np.shape(d) == (len(qs),) and np.shape(a) == (3, len(qs))
    for k, q in enumerate(qs):
        check(d[k], a[:, k], q, r.quat_coef, g, f'point {k}')
    for axis in (False, True):
        h = grain(rng, g, qs, ref)
        quiet(h.build_mis_ori_list, calc_axis=axis)
        close(h.ref_ori.quat_coef, r.quat_coef, 'reference')
        assert len(h.mis_ori_list) == len(qs)
        v = [2 * np.arccos(x) for x in h.mis_ori_list]
        close(v, d, 'list of deviations')
        assert abs(h.average_mis_ori - np.mean(h.mis_ori_list)) < 1e-12, 'average'
        assert (h.mis_ori_axis_list is None) == (not axis)
        if axis:
            assert len(h.mis_ori_axis_list) == len(qs)
            for k, q in enumerate(qs):
                check(None, h.mis_ori_axis_list[k], q, r.quat_coef, g, f'point {k} of the list')
    # only the points matter, not their order, for a given reference
    o = rng.permutation(len(qs))
    h = grain(rng, g, [qs[k] for k in o], r)
    d2, a2 = quiet(h.calc_grod)
    close(d2, np.asarray(d)[o], 'order of points')


def maps(rng, i, log):
    """all grains of a map, the stored data and the map of deviations"""
    h, w = (int(v) for v in rng.integers(3, 9, 2))
    m, phase, euler, labels = random_ebsd(rng, h, w, nphase=int(rng.integers(1, 3)), spread=float(rng.choice([0, .01, .02])))
    log['phase'], log['euler'] = phase, euler
    quiet(lambda: m.data.generate('grains', min_grain_size=int(rng.integers(1, 4))))
    if not len(m.grains):
        return
    kind = int(rng.integers(3))
    if kind == 0:
        quiet(m.calc_grain_av_oris)
    if kind == 1:
        quiet(m.calc_grain_mis_ori, calc_axis=bool(rng.integers(2)))
    got = {}

    class Plot:
        @staticmethod
        def create(mp, data, **k):
            got['data'] = np.array(data)
            return Obj()
    old = ebsd.MapPlot
    ebsd.MapPlot = Plot
    try:
        for comp in (0, 1, 2, 3):
            quiet(m.plot_mis_ori_map, comp)
            got[comp] = got['data']
    finally:
        ebsd.MapPlot = old
    q = m.data.orientation
    covered = np.zeros((h, w), bool)
    for k, g in enumerate(m.grains):
        name = g.phase.crystal_structure.name
        r = g.ref_ori.quat_coef
        d, a = quiet(lambda: (g.data.GROD, g.data.GROD_axis))
        assert g.ref_ori.quat_coef is not None and np.array_equal(g.ref_ori.quat_coef, r), 'the reference is kept'
        for j, (x, y) in enumerate(g.data.point):
            covered[y, x] = True
            c = q[y, x].quat_coef
            check(d[j], np.asarray(a)[:, j], c, r, name, f'grain {k} point {j}')
            check(np.radians(got[0][y, x]), np.radians([got[s][y, x] for s in (1, 2, 3)]), c, r, name, f'map of deviations, grain {k} point {j}')
    for comp in range(4):
        assert not got[comp][~covered].any(), 'deviation outside of the grains'


def between(rng, i, log):
    """misorientation of two grains"""
    g = ('cubic', 'hexagonal')[i % 2]
    a, b = quat(rng), quat(rng)
    log['group'], log['a'], log['b'] = g, a, b
    m = Obj()
    m.crystal_sym = g
    s = ebsd.BoundarySegment(m, Obj(), Obj())
    s.grain1.ref_ori, s.grain2.ref_ori = Quat(*a), Quat(*b)
    c = nearest(b, a, g)
    if c[0][0] > 1 - 1e-6:
        return
    d, v = quiet(s.misorientation)
    assert abs(np.linalg.norm(v) - 1) < 1e-9, 'unit axis'
    check(d, np.array(v) * d, b, a, g, 'misorientation across a boundary')


CASES = {'deviation': (deviation, 120), 'maps': (maps, 25), 'between': (between, 60)}
