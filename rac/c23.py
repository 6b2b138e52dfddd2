import os
from rac.gen import *
from rac.c24 import scratch
from defdap import ebsd
from defdap.crystal import Phase
from defdap.quat import Quat


def roundtrip(rng, i, log):
    h, w = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    n = int(rng.integers(1, 6))
    phs = []
    for k in range(n):
        laue = int(rng.choice([9, 11]))
        ang = (90, 90, 120) if laue == 9 else (90, 90, 90)
        if rng.random() < .3:
            ang = tuple(rng.uniform(60, 120, 3))
        phs.append(Phase(f'Phase {k} (hcp)' if rng.random() < .5 else f'P-{k}', laue, None if rng.random() < .2 else int(rng.integers(0, 231)),
                         (*rng.uniform(1, 9, 3), *(a * np.pi / 180 for a in ang))))
    phase = rng.integers(0, n + 1, (h, w))
    euler = np.array([[eulers(rng) for _ in range(w)] for _ in range(h)]).transpose(2, 0, 1)
    bc = rng.integers(0, 256, (h, w))
    step = float(rng.uniform(.01, 5))
    log['map'] = f'{h}x{w} {n} phases step {step}'
    m = quiet(ebsd_map, phase, euler, phs, step, bc)
    with scratch() as t:
        quiet(m.save, 'map', data_type=None if rng.random() < .5 else 'OxfordText', file_dir=str(t))
        names = os.listdir(t)
        assert names == ['map.ctf'], f'files {names}'
        text = (t / 'map.ctf').read_text()
        try:
            quiet(m.save, 'map', file_dir=str(t))
        except FileExistsError:
            pass
        else:
            assert False, 'an existing file is overwritten'
        assert (t / 'map.ctf').read_text() == text, 'an existing file is changed'
        m2 = quiet(ebsd.Map, str(t / 'map.ctf'))
    rows = [r.split('\t') for r in text.split('\n') if r]
    start = next(k for k, r in enumerate(rows) if r[:3] == ['Phase', 'X', 'Y'])
    rows = rows[start + 1:]
    assert len(rows) == h * w, f'{len(rows)} lines for {h * w} pixels'
    xy = np.array([[float(r[1]), float(r[2])] for r in rows]).reshape(h, w, 2)
    close(xy[..., 0], np.tile(np.arange(w) * step, (h, 1)), 'x of the pixels', 5.01e-4)
    close(xy[..., 1], np.tile(np.arange(h)[:, None] * step, (1, w)), 'y of the pixels', 5.01e-4)
    assert tuple(m2.shape) == (h, w), f'shape {m2.shape}'
    assert abs(m2.step_size - step) <= 5.001e-5, f'step {m2.step_size}'
    assert len(m2.phases) == n, f'{len(m2.phases)} phases'
    for a, b in zip(m2.phases, phs):
        assert (a.name, a.laue_group, a.spaceGroup) == (b.name, b.laue_group, b.spaceGroup or 0), f'phase {a.name, a.laue_group, a.spaceGroup}'
        d = np.abs(np.array(a.lattice_params) - np.array(b.lattice_params))
        assert (d[:3] <= 5.01e-4).all() and (d[3:] <= 5.01e-4 * np.pi / 180).all(), 'lattice'
    close(m2.data.phase, phase, 'phase')
    close(m2.data.band_contrast, bc, 'band contrast')
    q1, q2 = m.data.orientation, m2.data.orientation
    for r in range(h):
        for c in range(w):
            a, b = mat(q1[r, c].quat_coef), mat(q2[r, c].quat_coef)
            assert np.abs(a - b).max() < 3.2e-5, f'orientation of {r, c}'


CASES = {'roundtrip': (roundtrip, 60)}
