from rac.gen import *
from defdap.quat import Quat
from rac.c12 import syms
from rac.c16 import build, field


def nye(rng, i, log):
    h, w = (int(v) for v in rng.integers(1, 7, 2))
    if i % 25 == 11:
        h, w = (int(rng.integers(12, 40)), 3) if rng.integers(2) else (3, int(rng.integers(12, 40)))
    q = field(rng, h, w, rng.choice([0, 1e-3, .05, .5, 5]))
    if rng.integers(2):          # equivalents and signs differ from pixel to pixel
        g0 = syms('cubic')
        for y in range(h):
            for x in range(w):
                q[y, x] = qmul(g0[rng.integers(len(g0))], q[y, x]) * rng.choice([-1, 1])
    m = build(q)
    g = m.primary_phase.crystal_structure.name
    step = float(rng.choice([.1, .5, 2]))
    m.step_size = step
    log['q'], log['step'], log['class'] = q, step, g
    ss = syms(g)
    quiet(m.data.generate, 'GND')
    gnd, al = np.asarray(m.data.GND), np.asarray(m.data.Nye_tensor)
    assert gnd.shape == (h, w) and al.shape == (3, 3, h, w)

    def grad(p, r):
        """all rotations that may be chosen (ties within rounding)"""
        eq = [qmul(s, r) for s in ss]
        d = np.array([abs(p @ e) for e in eq])
        out = []
        for k in np.nonzero(d > d.max() - 1e-9)[0]:
            e = eq[k]
            out.append((mat(qmul([e[0], -e[1], -e[2], -e[3]], p)) - np.eye(3)) / (step * 1e-6))
        return out
    b = 1.4e-10
    for y in range(h):
        for x in range(w):
            if y == h - 1 or x == w - 1:
                assert np.all(al[:, :, y, x] == 0) and gnd[y, x] == 0, 'no neighbour'
                continue
            a = al[:, :, y, x]
            best = np.inf
            for bx in grad(q[y, x], q[y, x + 1]):
                for by in grad(q[y, x], q[y + 1, x]):
                    want = np.stack([-by[:, 2], bx[:, 2], by[:, 0] - bx[:, 1]], axis=1) / b
                    best = min(best, np.abs(want - a).max())
            assert best <= 1e-6 * (1 + 1 / (step * 1e-6 * b) * 1e-6), f'tensor at {(y, x)}: off by {best}'
            assert np.isclose(gnd[y, x], 1.5 * np.abs(a).sum(), rtol=1e-9), 'density'
    # uniform map
    c = np.broadcast_to(q[0, 0], q.shape) * np.where(rng.uniform(size=(h, w)) < .5, -1, 1)[..., None]
    u = build(c)
    u.step_size = step
    quiet(u.data.generate, 'GND')
    assert np.all(np.abs(u.data.GND) * step * 1e-6 * b < 1e-12), 'uniform map'


CASES = {'nye': (nye, 100)}
