import types
import matplotlib
matplotlib.use('Agg')
from rac.gen import *
from rac.c24 import scratch
from defdap import hrdic, inspector


class MapStub(list):
    pass


def grain(rng):
    g = types.SimpleNamespace(points_list=[], groups_list=[])
    g.ebsd_grain = types.SimpleNamespace(slip_trace_angles=list(rng.uniform(0, np.pi, int(rng.integers(0, 6)))))
    return g


def bare(rng, n=4):
    gi = inspector.GrainInspector.__new__(inspector.GrainInspector)
    gi.selected_dic_map = MapStub(grain(rng) for _ in range(n))
    gi.grain_id = 0
    gi.selected_dic_grain = gi.selected_dic_map[0]
    gi.correction_angle = 0
    gi.redraw = gi.redraw_line = lambda: None
    gi.grain_plot = types.SimpleNamespace(arrow=None)
    gi.selected_ebsd_grain = gi.selected_dic_grain.ebsd_grain
    gi.selected_ebsd_map = gi.selected_dic_map.ebsd_map = [g.ebsd_grain for g in gi.selected_dic_map[::-1]]
    gi.rdr_line_length = 3
    return gi


def angle(p, q, corr):
    """from downwards towards the right, in degrees, in a half turn"""
    dx, dy = q[0] - p[0], q[1] - p[1]
    return (np.degrees(np.arctan2(dx, dy)) - corr) % 180


def close(a, b):
    d = abs(a - b) % 180
    return min(d, 180 - d) <= .00501


def expected(angles):
    """groups of the lines one after the other"""
    av, mem = [], []
    for i, a in enumerate(angles):
        d = [abs(x - a) for x in av]
        if d and min(d) < 10:
            k = d.index(min(d))
            mem[k].append(i)
            av[k] = float('%.2f' % np.mean([angles[j] for j in mem[k]]))
        else:
            av.append(a)
            mem.append([i])
    return av, mem


def check_groups(g, angles):
    av, mem = expected(angles)
    assert [l[1] for l in g.points_list] == list(angles), 'the angles of the lines change'
    got = [l[2] for l in g.points_list]
    assert all(type(x) is int for x in got), 'group numbers are not plain integers'
    want = [None] * len(angles)
    for k, m in enumerate(mem):
        for i in m:
            want[i] = k
    assert got == want, f'groups {got} instead of {want} for {list(angles)}'
    assert len(g.groups_list) == len(av), f'{len(g.groups_list)} groups'
    for k, r in enumerate(g.groups_list):
        assert r[0] == k, 'number of a group'
        assert abs(r[1] - av[k]) <= 1e-9, f'angle of group {k}: {r[1]} instead of {av[k]}'
        th = [np.degrees(x) for x in g.ebsd_grain.slip_trace_angles]
        pl = [i for i, x in enumerate(th) if abs(x - r[1]) < 5]
        assert list(r[2]) == pl, f'planes {r[2]} instead of {pl}'
        assert len(r[3]) == len(pl) and all(abs(d - (r[1] - th[i])) <= .00501 for d, i in zip(r[3], pl)), 'deviations'


def ends(rng):
    p = rng.uniform(0, 50, 2)
    q = p + (rng.uniform(-20, 20, 2) if rng.random() < .6 else rng.choice([-3., 0., 3.], 2))
    if abs(p - q).max() == 0:
        q = p + [0, 2.5]
    return tuple(map(float, p)), tuple(map(float, q))


def lines(rng, i, log):
    gi = bare(rng)
    gi.correction_angle = float(rng.choice([0, 0, rng.uniform(-90, 90), 90]))
    g = gi.selected_dic_grain
    if rng.random() < .5:
        gi.goto_grain('2', None)
        g = gi.selected_dic_map[2]
        assert gi.selected_dic_grain is g and gi.selected_ebsd_grain is g.ebsd_grain and gi.grain_id == 2, 'grain gone to'
    log['correction'] = gi.correction_angle
    log['lines'] = []
    angles = []
    for k in range(int(rng.integers(1, 9))):
        p, q = ends(rng)
        if rng.random() < .3 and angles:
            p, q = log['lines'][-1][::-1]
        log['lines'].append((p, q))
        gi.grain_plot.p1, gi.grain_plot.p2 = p, q
        gi.save_line(None, None)
        assert len(g.points_list) == k + 1, 'number of lines'
        pts, a, _ = g.points_list[-1]
        assert all(abs(x - y) <= .00501 for x, y in zip(pts, [*p, *q])) and len(pts) == 4, f'points {pts}'
        assert 0 <= a <= 180, f'angle {a}'
        assert close(a, angle(p, q, gi.correction_angle)), f'angle {a} of {p} {q}'
        # drawn the other way round
        h = bare(rng)
        h.correction_angle = gi.correction_angle
        h.grain_plot.p1, h.grain_plot.p2 = q, p
        h.save_line(None, None)
        assert close(h.selected_dic_grain.points_list[0][1], a), 'the angle depends on the order of the ends'
        angles.append(a)
        check_groups(g, angles)
    assert all(not x.points_list and not x.groups_list for x in gi.selected_dic_map if x is not g), 'lines in other grains'
    k = int(rng.integers(0, len(angles)))
    gi.remove_line(str(k), None)
    del angles[k]
    check_groups(g, angles) if angles else None
    assert len(g.points_list) == len(angles) and (angles or g.groups_list == []), 'a line is removed'
    # grouping again changes nothing
    if angles:
        gi.group_lines(g)
        check_groups(g, angles)
    gi.clear_all_lines(None, None)
    assert g.points_list == [] and g.groups_list == [], 'lines are cleared'


def fill(rng, g):
    ang = [float('%.2f' % x) for x in (rng.uniform(0, 180, int(rng.integers(0, 8))) if rng.random() < .5
                                         else 60 + rng.uniform(-15, 15, int(rng.integers(0, 8))))]
    g.points_list = [[[float('%.2f' % x) for x in rng.uniform(0, 99, 4)], a, -1] for a in ang]
    g.groups_list = []
    return ang


def grouping(rng, i, log):
    gi = bare(rng)
    g = gi.selected_dic_map[int(rng.integers(0, 4))]
    ang = log['angles'] = fill(rng, g)
    if rng.random() < .5:
        gi.group_lines(g)
    else:
        gi.selected_dic_grain = g
        gi.group_lines()
    check_groups(g, ang) if ang else None
    assert ang or g.groups_list == [], 'no lines, no groups'


def files(rng, i, log):
    n = int(rng.integers(1, 14))
    gi = bare(rng, n)
    import copy
    for g in gi.selected_dic_map:
        fill(rng, g)
        gi.group_lines(g)
        for r in g.groups_list:
            if rng.random() < .5:
                r[4] = float(rng.normal())
    log['lines'] = [len(g.points_list) for g in gi.selected_dic_map]
    want = [(copy.deepcopy(g.points_list), copy.deepcopy(g.groups_list)) for g in gi.selected_dic_map]
    with scratch() as t:
        gi.selected_dic_map.file_name = t / 'data.txt'
        gi.filename = 'first.txt'
        gi.update_filename('lines_RDR.txt', None)
        gi.save_file(None, None)
        import os
        assert os.listdir(t) == ['lines_RDR.txt'], f'files {os.listdir(t)}'
        h = bare(rng, n)
        h.selected_dic_map.file_name = t / 'data.txt'
        h.filename = 'lines_RDR.txt'
        for g in h.selected_dic_map if rng.random() < .5 else ():
            fill(rng, g)
            h.group_lines(g)
        old = [(copy.deepcopy(g.points_list), copy.deepcopy(g.groups_list)) for g in h.selected_dic_map]
        for _ in range(int(rng.integers(1, 3))):
            h.load_file(None, None)
        for k, (a, g) in enumerate(zip(want, h.selected_dic_map)):
            w = a if a[0] else old[k]
            assert g.points_list == w[0], f'lines of grain {k}: {g.points_list} instead of {w[0]}'
            assert g.groups_list == w[1], f'groups of grain {k}: {g.groups_list} instead of {w[1]}'


def rdr(rng, i, log):
    """relative displacement ratio of a group of lines"""
    gi = bare(rng)
    g = gi.selected_dic_grain = gi.selected_dic_map[int(rng.integers(0, 4))]
    L = gi.rdr_line_length = int(rng.choice([3, 3, 5, 7, 9]))
    m = (L - 1) // 2
    h, w = int(rng.integers(24, 40)), int(rng.integers(24, 40))
    gi.selected_dic_map.data = types.SimpleNamespace(displacement=rng.normal(size=(2, h, w)))
    x0, y0 = int(rng.integers(0, 8)), int(rng.integers(0, 8))
    g.extreme_coords = (x0, y0, w - 1, h - 1)
    wx, wy = w - x0, h - y0
    for k in range(int(rng.integers(1, 7))):
        a, b = ([float('%.2f' % rng.uniform(m, s - m - 1)) for s in (wx, wy)] for _ in range(2))
        if rng.random() < .4:
            b[k % 2] = a[k % 2]
        if abs(a[0] - b[0]) + abs(a[1] - b[1]) < 3:
            continue
        gi.grain_plot.p1, gi.grain_plot.p2 = tuple(a), tuple(b)
        gi.save_line(None, None)
    if not g.groups_list:
        return
    k = int(rng.integers(0, len(g.groups_list)))
    was = [list(r) for r in g.groups_list]
    log['lines'], log['group'], log['length'] = [l for l in g.points_list], k, L
    if rng.random() < .5:
        quiet(gi.calc_rdr, g, k, show_plot=False)
    else:
        gi.plot_rdr = lambda *a: None
        gi.rdr_group_text_box = types.SimpleNamespace(set_val=lambda v: None)
        quiet(gi.run_rdr_group, str(k), None)
    from skimage.draw import line
    step = [(1, 0), (1, -1), (0, 1), (1, 1), (1, 0)][int(np.round(g.groups_list[k][1] / 45))]
    u, v = [], []
    for pts, _, grp in g.points_list:
        if grp != k:
            continue
        for x, y in zip(*line(*(int(c) for c in pts))):
            at = [(y0 + y + t * step[1], x0 + x + t * step[0]) for t in range(-m, m + 1)]
            a = np.array([gi.selected_dic_map.data.displacement[:, r, c] for r, c in at])
            a = a - a.mean(axis=0)
            u += list(a[:, 0])
            v += list(a[:, 1])
    u, v = np.array(u), np.array(v)
    want = (u * v).sum() / (v * v).sum()
    got = g.groups_list[k][4]
    assert type(got) is float, 'the ratio is a plain number'
    assert abs(got - want) <= 1e-8 * (1 + abs(want)), f'ratio {got} instead of {want}'
    for j, (a, b) in enumerate(zip(was, g.groups_list)):
        assert a[:4] == b[:4] and (j == k or a[4] == b[4]), 'the rest of the groups is kept'


def whole(rng, i, log):
    """the tool itself, without a screen"""
    import matplotlib.pyplot as plt
    h = w = 8
    lab = np.zeros((h, w), int)
    lab[:, :4] = 1
    eu = np.array([eulers(rng), eulers(rng)])
    e = ebsd_map(np.ones((h, w), int), np.moveaxis(eu[lab], -1, 0), phases()[:1])
    d = dic_map(rng.normal(size=(2, h, w)), 8, 1.)
    e.frame.homog_points = d.frame.homog_points = [(0, 0), (7, 0), (0, 7), (7, 7)]
    quiet(d.link_ebsd_map, e, transform_type='affine')
    quiet(d.find_grains, min_grain_size=1, algorithm='warp')
    if len(d.grains) < 2:
        return
    quiet(e.calc_grain_av_oris)
    quiet(e.calc_average_grain_schmid_factors, [1, 0, 0])
    with scratch() as t:
        d.file_name = t / 'x.txt'
        gi = quiet(inspector.GrainInspector, d, vmax=.1, correction_angle=float(rng.choice([0, 30])))
        n = [0, 0]
        for _ in range(3):
            k = int(rng.integers(0, 2))
            quiet(gi.goto_grain, k, gi.plot)
            p, q = ends(rng)
            gi.grain_plot.p1, gi.grain_plot.p2 = p, q
            quiet(gi.save_line, None, gi.plot)
            n[k] += 1
            a = d[k].points_list[-1][1]
            assert close(a, angle(p, q, gi.correction_angle)), f'angle {a}'
            assert [len(g.points_list) for g in d.grains] == n, 'lines of the grains'
            check_groups(d[k], [l[1] for l in d[k].points_list])
        quiet(gi.save_file, None, gi.plot)
        was = [(g.points_list, g.groups_list) for g in d.grains]
        for k in range(2):
            quiet(gi.goto_grain, k, gi.plot)
            quiet(gi.clear_all_lines, None, gi.plot)
        quiet(gi.load_file, None, gi.plot)
        assert was == [(g.points_list, g.groups_list) for g in d.grains], 'lines and groups from the file'
    plt.close('all')


CASES = {'lines': (lines, 60), 'grouping': (grouping, 120), 'files': (files, 60), 'rdr': (rdr, 60), 'whole': (whole, 2)}
