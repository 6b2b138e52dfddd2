import contextlib
import io
from types import SimpleNamespace
from rac.gen import *
from defdap import ebsd
from defdap.quat import Quat
from defdap.crystal import Phase, SlipSystem, crystalStructures

PH = [Phase('fcc', 11, 225, (3, 3, 3, 0, 0, 0)), Phase('bcc', 11, 229, (3, 3, 3, 0, 0, 0)),
      Phase('hcp', 9, 194, (2.9, 2.9, 4.7, 0, 0, 0)), Phase('hcp', 9, 194, (1, 1, 1.2, 0, 0, 0))]


class M_(ebsd.Map):
    grains = property(lambda self: self._grains)


def grain(rng, log, phase=None):
    g = ebsd.Grain.__new__(ebsd.Grain)
    g.phase = phase or PH[rng.integers(len(PH))]
    e = eulers(rng)
    q = Quat.from_euler_angles(*e).quat_coef.copy() if rng.integers(2) else quat(rng)
    if rng.integers(2):
        q = -q
    g.ref_ori = Quat(*q, allow_southern=True)
    g.slip_trace_angles = g.slip_trace_inclinations = g.average_schmid_factors = None
    log['phase'], log['q'] = g.phase.name, q
    return g, q, mat(q)


def given(rng, phase):
    """another list of systems, regrouped"""
    flat = [s for x in phase.slip_systems for s in x]
    rng.shuffle(flat)
    flat = flat[:int(rng.integers(1, len(flat)))]
    out, k = [], 0
    while k < len(flat):
        m = int(rng.integers(1, 4))
        out.append(flat[k:k + m])
        k += m
    return out


def schmid(rng, i, log):
    g, q, M = grain(rng, log)
    a = unit(rng)
    log['load'] = a
    ss = given(rng, g.phase) if rng.integers(3) == 0 else None
    arg = a if rng.integers(2) else tuple(a)
    if ss is None:
        g.calc_average_schmid_factors(np.array(a))
    else:
        g.calc_average_schmid_factors(np.array(a), slip_systems=ss)
    ss = ss or g.phase.slip_systems
    assert [len(x) for x in g.average_schmid_factors] == [len(x) for x in ss], 'groups'
    for x, f in zip(ss, g.average_schmid_factors):
        for s, v in zip(x, f):
            n, d = M.T @ s.slip_plane, M.T @ s.slip_dir
            close(v, abs(a @ n) * abs(a @ d), 'Schmid factor')
            assert -1e-12 <= v <= .5 + 1e-9, f'Schmid factor {v} out of range'
    # whole map
    gs = [grain(rng, {}, g.phase)[0] for _ in range(3)]
    m = M_.__new__(M_)
    m._grains = gs
    with contextlib.redirect_stdout(io.StringIO()):
        m.calc_average_grain_schmid_factors(np.array(a))
    for h in gs:
        M = mat(h.ref_ori.quat_coef)
        for x, f in zip(h.phase.slip_systems, h.average_schmid_factors):
            for s, v in zip(x, f):
                close(v, abs(a @ (M.T @ s.slip_plane) * (a @ (M.T @ s.slip_dir))), 'Schmid factor of each grain')


def trace(rng, i, log):
    g, q, M = grain(rng, log)
    if rng.integers(3) == 0:
        # slip planes parallel, normal or nearly parallel to the surface and to the axes
        ang = float(rng.choice([0, 0, np.pi / 2, np.pi / 4, 1e-7]))
        e = (float(rng.uniform(0, 6)), ang, float(rng.choice([0., np.pi / 6, rng.uniform(0, 6)])))
        g.ref_ori = Quat.from_euler_angles(*e)
        log['q'] = q = g.ref_ori.quat_coef.copy()
        M = mat(q)
    ss = given(rng, g.phase) if rng.integers(3) == 0 else None
    with np.errstate(all='ignore'):
        if ss is None:
            g.calc_slip_traces()
        else:
            g.calc_slip_traces(slip_systems=ss)
    ss = ss or g.phase.slip_systems
    assert len(g.slip_trace_angles) == len(ss) == len(g.slip_trace_inclinations)
    for x, t, inc in zip(ss, g.slip_trace_angles, g.slip_trace_inclinations):
        n = M.T @ x[0].slip_plane
        assert 0 <= inc <= np.pi / 2 + 1e-9, f'inclination {inc}'
        close(np.cos(inc), abs(n[2]), 'cosine of the inclination', 1e-7)
        if n[0] ** 2 + n[1] ** 2 > 1e-10:
            assert 0 <= t <= np.pi + 1e-9, f'trace angle {t}'
            d = np.array([-np.sin(t), np.cos(t)])
            assert abs(d @ n[:2]) < 1e-6, f'trace at {t} is not in the plane with normal {n}'
    g.slip_trace_angles = None
    with np.errstate(all='ignore'):
        assert len(g.slip_traces) == len(g.phase.slip_systems)
    # the other quaternion of the rotation
    if ss is g.phase.slip_systems:
        a = np.array(g.slip_trace_angles), np.array(g.slip_trace_inclinations)
        g.ref_ori = Quat(*(-q), allow_southern=True)
        with np.errstate(all='ignore'):
            g.calc_slip_traces()
        close(g.slip_trace_inclinations, a[1], 'inclination for -q', 1e-6)
        d = np.array(g.slip_trace_angles) - a[0]
        n = np.array([(M.T @ x[0].slip_plane) for x in ss])
        ok = n[:, 0] ** 2 + n[:, 1] ** 2 > 1e-10
        assert np.all(np.abs(np.sin(d[ok])) < 1e-6), 'trace for -q'


def rdr(rng, i, log):
    g, q, M = grain(rng, log)
    with np.errstate(all='ignore'):
        g.calc_rdr()
    assert [len(x) for x in g.rdr] == [len(x) for x in g.phase.slip_systems]
    for x, r in zip(g.phase.slip_systems, g.rdr):
        for s, v in zip(x, r):
            d = M.T @ s.slip_dir
            if abs(d[1]) > 1e-6:
                close(v, -d[0] / d[1], 'RDR', 1e-6)


def average(rng, i, log):
    """the average orientation is found first when it is missing"""
    g, q, M = grain(rng, log)
    g.ref_ori = None
    g.data = SimpleNamespace(orientation=np.array([Quat(*q if q[0] >= 0 else -q) for _ in range(3)]))
    (g.calc_average_schmid_factors if i % 2 else (lambda v: g.calc_slip_traces()))(np.array([1., 0, 0]))
    ss = list(Quat.sym_eqv(g.crystal_sym))
    assert max(abs(np.dot((s * Quat(*q)).quat_coef, g.ref_ori.quat_coef)) for s in ss) > 1 - 1e-6, 'average orientation'


CASES = {'schmid': (schmid, 60), 'trace': (trace, 200), 'rdr': (rdr, 40), 'average': (average, 8)}
