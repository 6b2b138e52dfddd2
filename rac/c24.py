from rac.gen import *
from defdap.crystal import Phase
from defdap.file_readers import (EBSDDataLoader, DICDataLoader, OxfordTextLoader, EdaxAngLoader, OxfordBinaryLoader, PythonDictLoader, DavisLoader,
                                 PyValeLoader)
import contextlib
import pathlib


@contextlib.contextmanager
def scratch():
    t = pathlib.Path(tmpdir())
    for f in t.glob('*'):
        if f.is_file():
            f.unlink()
    yield t


def some_phases(rng, n):
    return [dict(name=f'Ti {i} (hcp)' if rng.random() < .5 else f'Iron-{i}', laue=int(rng.choice([9, 11])), space=int(rng.integers(0, 231)),
                 lat=[round(float(rng.uniform(1, 9)), 5) for _ in range(3)] + [round(float(rng.uniform(60, 120)), 5) for _ in range(3)]) for i in range(n)]


def loaded_phases(got, want, space=True, name=lambda p: p['name']):
    assert len(got) == len(want), f'{len(got)} phases instead of {len(want)}'
    for g, p in zip(got, want):
        assert g.name == name(p), f'phase {g.name!r} instead of {name(p)!r}'
        assert g.laue_group == p['laue'], 'Laue group'
        if space is not None:
            assert g.spaceGroup == (p['space'] if space else 0), 'space group'
        close(np.array(g.lattice_params), np.array([round(x, 3) for x in p['lat'][:3]] + [round(x, 3) * np.pi / 180 for x in p['lat'][3:]]), 'lattice')


def same_map(d, name, want, tol=1e-9):
    close(d[name], want, name, tol)


def size(rng, lo=1):
    return int(rng.integers(lo, 7)), int(rng.integers(lo, 7))


def ctf(rng, i, log):
    h, w = size(rng)
    phs = some_phases(rng, int(rng.integers(1, 5)) if i % 5 else 12)
    cols = ['Phase', 'X', 'Y', 'Bands', 'Error', 'Euler1', 'Euler2', 'Euler3', 'MAD', 'BC', 'BS']
    if rng.random() < .5:
        keep = [c for c in cols if c not in ('X', 'Y', 'Bands', 'Error') or rng.random() < .5]
        cols = [keep[k] for k in rng.permutation(len(keep))]
    step = round(float(rng.uniform(.01, 3)), 4)
    acq = [round(float(x), 4) for x in rng.uniform(0, 180, 3)]
    data = {c: np.round(rng.uniform(0, 360, (h, w)), 4) for c in cols}
    for c in ('Phase', 'Bands', 'Error', 'BC', 'BS'):
        if c in data:
            data[c] = rng.integers(0, len(phs) + 1 if c == 'Phase' else 256, (h, w))
    has = rng.random() < .5
    log['file'] = f'{h}x{w} {cols} {len(phs)} phases'
    out = ['Channel Text File', 'Prj\tmy map', 'Author\t[Unknown]', 'JobMode\tGrid', f'XCells\t{w}', f'YCells\t{h}', f'XStep\t{step}', f'YStep\t{step}']
    out += [f'AcqE{k + 1}\t{a}' for k, a in enumerate(acq)] if has else []
    out += ['Euler angles refer to Sample Coordinate system (CS0)!\tMag\t2000', f'Phases\t{len(phs)}']
    for p in phs:
        out.append(';'.join(map(str, p['lat'][:3])) + '\t' + ';'.join(map(str, p['lat'][3:])) + f"\t{p['name']}\t{p['laue']}\t{p['space']}\t\t\t[x]")
    out.append('\t'.join(cols))
    out += ['\t'.join(str(data[c][r, k]) for c in cols) for r in range(h) for k in range(w)]
    with scratch() as t:
        f = pathlib.Path(t) / 'map.ctf'
        f.write_text('\n'.join(out) + '\n')
        L = EBSDDataLoader.get_loader(None, f)
        quiet(lambda: L.load(f))
    m, d = L.loaded_metadata, L.loaded_data
    assert tuple(m['shape']) == (h, w), f"shape {m['shape']}"
    close(m['step_size'], step, 'step size')
    q = m['acquisition_rotation'].quat_coef
    want = mat_of(acq if has else [0, 0, 0])
    close(mat(q), want, 'acquisition rotation')
    loaded_phases(m['phases'], phs)
    for n, c in (('phase', 'Phase'), ('band_contrast', 'BC'), ('band_slope', 'BS'), ('mean_angular_deviation', 'MAD')):
        same_map(d, n, data[c], 1e-5)
    close(d.euler_angle, np.array([data[f'Euler{k}'] for k in (1, 2, 3)]) * np.pi / 180, 'angles', 1e-6)


def mat_of(deg):
    from defdap.quat import Quat
    return mat(Quat.from_euler_angles(*(np.array(deg) * np.pi / 180)).quat_coef)


def ang(rng, i, log):
    h, w = size(rng)
    n = int(rng.integers(1, 4))
    phs = some_phases(rng, n)
    for p in phs:
        p['name'] = p['name'].split()[0]
        sym = {9: '6/mmm', 11: 'm3m'}[p['laue']]
        p['sym'] = sym if p['laue'] == 9 or rng.random() < .5 else '43'
    step = round(float(rng.uniform(.01, 3)), 4)
    out = ['# TEM_PIXperUM          1.000000', '#']
    for k, p in enumerate(phs):
        out += [f'# Phase {k + 1}', f"# MaterialName  \t{p['name']}", '# Formula', '# Info', f"# Symmetry              {p['sym']}",
                '# LatticeConstants      ' + ' '.join(map(str, p['lat'])), '# NumberFamilies        1', '# hklFamilies   1  1  1 1 0.0 1', '#']
    out += ['# GRID: SqrGrid', f'# XSTEP: {step}', f'# YSTEP: {step}', f'# NCOLS_ODD: {w}', f'# NCOLS_EVEN: {w}', f'# NROWS: {h}', '#', '# OPERATOR: x', '#']
    bad = rng.random() < .2
    if bad:
        old, new = [('SqrGrid', 'HexGrid'), ('# Phase 1', '# Phase 3'), (f"Symmetry              {phs[0]['sym']}", 'Symmetry              mmm')][int(rng.integers(3))]
        out = [s.replace(old, new) for s in out]
    data = np.round(rng.uniform(0, 6.28, (h, w, 10)), 5)
    data[..., 7] = rng.integers(0, n, (h, w))
    if rng.random() < .5:
        # an angle of a quarter turn becomes zero
        data[int(rng.integers(h)), int(rng.integers(w)), 0] = np.pi / 2
    log['file'] = f'{h}x{w} {n} phases bad={bad}'
    out += ['  '.join(str(int(v)) if c == 7 else repr(float(v)) if v == np.pi / 2 else f'{v:.5f}' for c, v in enumerate(data[r, k])) for r in range(h) for k in range(w)]
    with scratch() as t:
        f = pathlib.Path(t) / 'map.ang'
        f.write_text('\n'.join(out) + '\n')
        L = EBSDDataLoader.get_loader(None, f)
        try:
            quiet(lambda: L.load(f))
        except ValueError:
            if not bad:
                raise
            return
    assert not bad, 'a file that does not fit is loaded'
    m, d = L.loaded_metadata, L.loaded_data
    assert tuple(m['shape']) == (h, w), f"shape {m['shape']}"
    close(m['step_size'], step, 'step size')
    loaded_phases(m['phases'], phs, space=None)
    same_map(d, 'phase', data[..., 7] + 1)
    for nme, c in (('image_quality', 5), ('confidence_index', 6), ('fit_factor', 9)):
        same_map(d, nme, data[..., c], 1e-5)
    e = data[..., :3].transpose(2, 0, 1).copy()
    close(np.cos(d.euler_angle[0]), np.cos(e[0] - np.pi / 2), 'angle 0', 1e-5)
    close(np.sin(d.euler_angle[0]), np.sin(e[0] - np.pi / 2), 'angle 0', 1e-5)
    assert not (np.abs(d.euler_angle[0][data[..., 0] == np.pi / 2]) > 1e-3).any(), 'a quarter turn becomes zero'
    assert d.euler_angle[0].min() > -1e-5 and d.euler_angle[0].max() < 2 * np.pi + 1e-5, 'range of angle 0'
    close(d.euler_angle[1:], e[1:], 'angles', 1e-5)


def crc(rng, i, log):
    h, w = size(rng)
    phs = some_phases(rng, int(rng.integers(1, 4)) if i % 5 else 12)
    step = round(float(rng.uniform(.01, 3)), 4)
    acq = [round(float(x), 4) for x in rng.uniform(0, 180, 3)]
    edx = int(rng.integers(0, 4)) if i % 4 else 12
    types = {3: 'f', 4: 'f', 5: 'f', 6: 'f', 7: 'B', 8: 'B', 10: 'B', 11: 'B', 12: 'f', 60: 'f', 61: 'f', **{101 + k: 'f' for k in range(edx)}}
    need = [3, 4, 5, 6, 7, 8] + [101 + k for k in range(edx)]
    ids = need + [k for k in types if k not in need and rng.random() < .5]
    ids = [ids[k] for k in rng.permutation(len(ids))]
    space = rng.random() < .7
    log['file'] = f'{h}x{w} fields {ids} edx {edx}'
    out = ['[General]', 'Version=5.0', 'Date=', '', '[Job]', f'xCells={w}', f'yCells={h}', f'NoOfPoints={h * w}', f'GridDistX={step}', f'GridDistY={step}', '',
           '[Acquisition Surface]'] + [f'Euler{k + 1}={a}' for k, a in enumerate(acq)]
    out += ['', '[Fields]', f'Count={len(ids)}'] + [f'Field{k + 1}={v}' for k, v in enumerate(ids)] + ['', '[Phases]', f'Count={len(phs)}']
    for k, p in enumerate(phs):
        out += ['', f'[Phase{k + 1}]', f"StructureName={p['name']}"] + [f'{n}={v}' for n, v in zip(('a', 'b', 'c', 'alpha', 'beta', 'gamma'), p['lat'])]
        out += [f"LaueGroup={p['laue']}"] + ([f"SpaceGroup={p['space']}"] if space else [])
    names = ['Fe', 'Ti', 'Al', 'O', 'C', 'N', 'Si', 'Mg', 'Mn', 'Cr', 'Ni', 'V'][:edx]
    if edx or rng.random() < .5:
        out += ['', '[EDX Windows]', f'Count={edx}'] + [f'Window{k + 1}={n}' for k, n in enumerate(names)]
    # comments and empty lines may stand anywhere
    for _ in range(int(rng.integers(0, 4))):
        out.insert(int(rng.integers(0, len(out) + 1)), ['; Note=1', '   ; xCells=9', '', '\t;a comment'][int(rng.integers(4))])
    rec = np.zeros(h * w, np.dtype([('phase', 'u1')] + [(f'f{v}', '<f4' if types[v] == 'f' else 'u1') for v in ids]))
    rec['phase'] = rng.integers(0, len(phs) + 1, h * w)
    for v in ids:
        rec[f'f{v}'] = rng.uniform(0, 6, h * w) if types[v] == 'f' else rng.integers(0, 256, h * w)
    with scratch() as t:
        f = pathlib.Path(t) / 'map.cpr'
        f.write_text('\n'.join(out) + '\n')
        rec.tofile(str(f.with_suffix('.crc')))
        f = f if rng.random() < .5 else f.with_suffix('.crc')
        L = EBSDDataLoader.get_loader(None, f)
        quiet(lambda: L.load(f))
    m, d = L.loaded_metadata, L.loaded_data
    assert tuple(m['shape']) == (h, w), f"shape {m['shape']}"
    close(m['step_size'], step, 'step size')
    close(mat(m['acquisition_rotation'].quat_coef), mat_of(acq), 'acquisition rotation')
    loaded_phases(m['phases'], phs, space)
    r = rec.reshape(h, w)
    same_map(d, 'phase', r['phase'])
    for n, v in (('band_contrast', 7), ('band_slope', 8), ('mean_angular_deviation', 6), *[(f'EDX {n}', 101 + k) for k, n in enumerate(names)]):
        same_map(d, n, r[f'f{v}'])
    close(d.euler_angle, np.array([r[f'f{k}'] for k in (3, 4, 5)]), 'angles')


def dictionary(rng, i, log):
    h, w = size(rng)
    n = int(rng.integers(1, 4))
    phs = [Phase(f'p{k}', 9, 0, (3, 3, 4.7, 90, 90, 120)) for k in range(n)]
    given = dict(step_size=.5, phases=phs, phase=rng.integers(0, n + 1, (h, w)), euler_angle=rng.uniform(0, 6, (3, h, w)), band_contrast=rng.integers(0, 256, (h, w)))
    want = {k: np.copy(v) for k, v in given.items() if k not in ('phases', 'step_size')}
    L = EBSDDataLoader.get_loader('PythonDict', None)
    L.load(given)
    assert tuple(L.loaded_metadata['shape']) == (h, w) and L.loaded_metadata['step_size'] == .5
    assert [p.name for p in L.loaded_metadata['phases']] == [p.name for p in phs]
    for k, v in want.items():
        close(L.loaded_data[k], v, k)


def dic(rng, i, log):
    h, w = size(rng, 2)
    b = int(rng.integers(1, 30))
    kind = ['Davis', 'OpenPIV', 'OpenPIVText', 'OpenPivBinary', 'PyVale-csv', 'PyVale-binary', None][i % 7]
    desc = bool(rng.random() < .5) and kind is not None and kind.startswith('Open')
    x0, y0 = (b / 2, b / 2) if kind in ('OpenPIV', 'OpenPIVText') else (int(rng.integers(0, 50)), int(rng.integers(0, 50)))
    x, y = np.meshgrid(x0 + b * np.arange(w), y0 + b * np.arange(h))
    u, v = np.round(rng.normal(size=(2, h, w)) * 3, 4)
    log['file'] = f'{kind} {h}x{w} binning {b} descending {desc}'
    hh, hw, hb = h, w, b
    bad = rng.random() < .3 and (kind in ('Davis', None, 'OpenPivBinary'))
    if bad:
        hh, hw, hb = [(h, w, b + 1), (h + 1, w, b), (w, h, b), (h, w + 1, b), (h, w, max(b - 1, 1))][int(rng.integers(5))]
        bad = (hh, hw, hb) != (h, w, b)
    o = slice(None, None, -1) if desc else slice(None)
    X, Y, U, V = (a[o] for a in (x, y, u, v))
    missing = np.zeros((h, w), bool)
    with scratch() as t:
        f = pathlib.Path(t) / 'd.txt'
        rows = lambda sep, *cols: [sep.join(repr(c.item()) for c in r) for r in zip(*[c.ravel() for c in cols])]
        if kind in ('Davis', None):
            f.write_text('\n'.join([f'#DaVis 8.4.0 2D-vector {hb} {hh} {hw} "" "" pixel'] + rows('\t', X, Y, U, V)) + '\n')
        elif kind in ('OpenPIV', 'OpenPIVText'):
            f.write_text('\n'.join(['# x\ty\tu\tv\tflags\tmask'] + rows('\t', X, Y, U, V, np.zeros((h, w)), np.zeros((h, w)))) + '\n')
        elif kind == 'OpenPivBinary':
            f = pathlib.Path(t) / 'd.npz'
            np.savez(f, x=X, y=Y, u=U, v=V, format='OpenPIV', version='1', binning=hb, shape=np.array([hh, hw]))
        else:
            ty = [('x', 'i4'), ('y', 'i4'), ('u', 'f8'), ('v', 'f8'), ('displacement_mag', 'f8'), ('converged', 'u1'), ('cost', 'f8'), ('ftol', 'f8'), ('xtol', 'f8'),
                  ('num_iterations', 'i4')]
            if w > 2 and h > 2 and rng.random() < .6:
                # some points were not correlated
                missing = rng.random((h, w)) < .2
                missing[0, :2] = missing[-1, -1] = missing[1, 0] = missing[:, -1] = False
                missing[:, 0] = False
            rec = np.zeros(int((~missing).sum()), ty)
            for n, c in zip('xyuv', (x, y, u, v)):
                rec[n] = c[~missing]
            if not missing.any() and w > 2 and rng.random() < .6:
                # each row is listed from a column of its own, upwards or downwards
                k = (np.arange(w) + int(rng.integers(1, w))) % w
                if rng.random() < .5:
                    rec = rec[::-1]
                rec = np.concatenate([r[k] for r in rec.reshape(h, w)])
                log['file'] += f' from column {k[0]}'
            u[missing] = v[missing] = 0
            if kind == 'PyVale-binary':
                rec.tofile(str(f))
            else:
                f.write_text('\n'.join([','.join(n for n, _ in ty)] + [','.join(repr(r[n].item()) for n, _ in ty) for r in rec]) + '\n')
        L = DICDataLoader.get_loader(kind)
        try:
            quiet(lambda: L.load(f))
        except ValueError:
            assert bad, 'a consistent file is refused'
            return
    assert not bad, f'header {(hb, hh, hw)} accepted for data {(b, h, w)}'
    m, d = L.loaded_metadata, L.loaded_data
    assert tuple(int(s) for s in m['shape']) == (h, w), f"shape {m['shape']}"
    assert m['binning'] == b, 'binning'
    close(d.coordinate, np.array([x, y]), 'coordinate')
    close(d.displacement, np.array([u, v]), 'displacement')


def pattern(rng, i, log):
    a = rng.integers(0, 4096, size(rng, 1))
    log['shape'] = a.shape
    with scratch() as t:
        f = pathlib.Path(t) / 'p.txt'
        f.write_text('#DaVis 8.4.0 2D-image\n' + '\n'.join('\t'.join(map(str, r)) for r in a) + '\n')
        close(DavisLoader.load_davis_image_data(f), a, 'image')


def refused(rng, i, log):
    with scratch() as t:
        for L in (OxfordTextLoader(), EdaxAngLoader(), OxfordBinaryLoader(), DavisLoader(), PyValeLoader('csv'), DICDataLoader.get_loader('openpiv'),
                  DICDataLoader.get_loader('openpivbinary')):
            try:
                L.load(pathlib.Path(t) / 'none.ctf')
            except FileNotFoundError:
                continue
            assert False, f'{type(L).__name__}: missing file'
    for g in (lambda: EBSDDataLoader.get_loader('hdf', pathlib.Path('a.ctf')), lambda: DICDataLoader.get_loader('hdf')):
        try:
            g()
        except ValueError:
            continue
        assert False, 'unknown type accepted'
    h, w = size(rng)
    good = dict(step_size=.5, phases=[Phase('p', 9, 0, (3, 3, 4.7, 90, 90, 120))], phase=np.ones((h, w), int), euler_angle=np.zeros((3, h, w)), band_contrast=np.zeros((h, w)))
    for k, v in (('euler_angle', np.zeros((3, h + 1, w))), ('euler_angle', np.zeros((h, w, 3)) if (h, w) != (3, 3) else np.zeros((2, 3, 3))), ('phases', ['p'])):
        try:
            PythonDictLoader().load({**good, k: v})
        except AssertionError:
            continue
        assert False, f'{k} that does not agree is accepted'


CASES = {'ctf': (ctf, 40), 'ang': (ang, 40), 'crc': (crc, 40), 'dictionary': (dictionary, 10), 'dic': (dic, 84), 'pattern': (pattern, 10),
         'refused': (refused, 4)}
