from rac.gen import *
from rac.c16 import field


def rotate(rng, i, log):
    h, w = (int(v) for v in rng.integers(1, 8, 2))
    m, phase, euler, lab = random_ebsd(rng, h, w)
    extra = {f'extra{k}': rng.normal(size=(2,) * k + (h, w)) for k in range(3)}
    for k, v in extra.items():
        m.data.add(k, v.copy(), type='map', order=v.ndim - 2)
    m.data.add('list', np.arange(4), type='list')
    before = {k: np.array(m.data[k]) for k in ('phase', 'euler_angle', 'band_contrast', *extra)}
    q0 = np.array([[bunge(euler[:, y, x]) for x in range(w)] for y in range(h)])
    done = [k for k in ('orientation', 'grain_boundaries', 'grains', 'KAM') if rng.integers(2) and (k != 'KAM' or min(h, w) > 1)]
    for k in done:
        quiet(m.data.generate, k)
    log.update(phase=phase, euler=euler, calculated=done, **{k: v for k, v in extra.items()})
    shape, step = tuple(m.shape), m.step_size
    kam = quiet(lambda: np.array(m.data.KAM)) if min(h, w) > 1 else None
    turn = np.diag([-1., -1, 1])
    for r in range(1, 4):
        quiet(m.rotate_data)
        f = (lambda a: a[..., ::-1, ::-1]) if r % 2 else (lambda a: a)
        assert tuple(m.shape) == shape and m.step_size == step
        for k, v in before.items():
            assert np.array_equal(m.data[k], f(v)), f'{k} after rotating {r} times'
        assert np.array_equal(m.data['list'], np.arange(4))
        o = m.data.orientation
        assert o.shape == (h, w)
        for y in range(h):
            for x in range(w):
                c = o[y, x].quat_coef
                old = q0[h - 1 - y, w - 1 - x] @ turn if r % 2 else q0[y, x]
                close(mat(c), old, f'orientation at {(y, x)} after rotating {r} times')
                assert c[0] >= 0
        if kam is not None:
            close(np.cos(quiet(lambda: np.array(m.data.KAM)) / 2), f(np.cos(kam / 2)), 'KAM', 1e-6)
        if 'grain_boundaries' in done:
            for k in ('phase_boundaries', 'grain_boundaries')[::1 if rng.integers(2) else -1]:
                b = quiet(lambda: m.data[k])
                n = quiet(m.find_boundaries)[k == 'grain_boundaries']
                assert b.points_x == n.points_x and b.points_y == n.points_y, f'{k} are those of the rotated map'
        if 'grains' in done:
            a, k = quiet(lambda: np.array(m.data.grains)), len(m)
            quiet(m.data.generate, 'grains')
            assert k == len(m) and np.array_equal(a, m.data.grains), 'grains are those of the rotated map'


CASES = {'rotate': (rotate, 120)}
