"""C24: loaders of data files."""
from pydv.contract import *
from pydv import text

LEVEL = 'proof'
NOTE = '''The real loaders run on files whose header numbers, lengths and data are symbols: a number in the text is a token,
the lines of the table are a function of the line number. .ctf with any number of phases (loop over the phase lines), any map size, columns
in the usual and another order, with and without acquisition angles; .ang with one and three phases, .cpr/.crc with the usual fields and with
fields in another order, unknown fields and windows of elements (the key-value reader read_until_string runs on the real header lines);
dictionaries; DaVis, OpenPIV (text, binary, both directions of y) and PyVale (csv, binary; points in any order and missing points); the check of
binning and shape refuses exactly the headers that do not fit the coordinates of a grid of at least two rows and columns; the choice of the
loader and refused files. Runs write real files of every format and load them.'''
ASSUME = [
    'numpy.loadtxt, numpy.fromfile, numpy.load and pandas.read_table by contract: they return the numbers of the table by column; the runs use the real ones',
    'a number in text is one token and int() and float() of it give its value (rounded to the decimals it was written with); real arithmetic',
    'the phase sections of .ang and .cpr headers are 1 to 3 in the proof (any number in .ctf), the runs use up to 3',
    'Quat.from_euler_angles by contract (property C01), Phase by what it is constructed from (property C17)',
    'no two points of a PyVale file are at the same position',
]
TARGETS = {}
target = register(TARGETS)


class Rec:
    """stand-in of Phase: what it is made from"""

    def __init__(self, name, laue_group, space_group, lattice_params):
        self.name, self.laue_group, self.space_group, self.lattice_params = name, laue_group, space_group, lattice_params


Rec.__module__ = 'defdap.contract'


class Files:
    def __init__(self, ctx):
        self.t = text.install()
        self.F = F = S().file_readers
        self.files = {}
        F.open = self.open
        F.Phase = Rec
        F.structured_to_unstructured = text.unstructured
        F.np.loadtxt = text.loadtxt(self.files)
        self.rot = []
        Q = F.Quat

        def from_euler(*e):
            self.rot.append(e)
            return ('rotation', len(self.rot))
        Q.from_euler_angles = staticmethod(from_euler)

    def open(self, name, mode='r', **k):
        assert mode in ('r', 'rt')
        return text.In(self.files[str(name)])

    def tok(self, v):
        return self.t.token(v)

    def path(self, name):
        return text.Path(name, self.files)


def deg3(x):
    """a number of the file rounded to three decimals"""
    return np.round(x, 3)


PI = T.pi()
STANDARD = ['Phase', 'X', 'Y', 'Bands', 'Error', 'Euler1', 'Euler2', 'Euler3', 'MAD', 'BC', 'BS']
INTS = {'Phase', 'Bands', 'Error', 'BC', 'BS'}


def phase_name(f, j):
    return 'Ti ' + f.tok(iapp('name', [j])) + ' (hcp)'


def ctf_header(f, h, w, P, acq=True):
    lines = ['Channel Text File', 'Prj\tspecimen 1 Map Data 2', 'Author\t[Unknown]', 'JobMode\tGrid', f'XCells\t{f.tok(w)}', f'YCells\t{f.tok(h)}',
             f'XStep\t{f.tok(rvar("step"))}', f'YStep\t{f.tok(rvar("ystep"))}']
    if acq:
        lines += [f'AcqE{i + 1}\t{f.tok(rvar(f"acq{i}"))}' for i in range(3)]
    return lines + ['Euler angles refer to Sample Coordinate system (CS0)!\tMag\t2000\tCoverage\t100\tDevice\t0\tKV\t20\tTiltAngle\t70', f'Phases\t{f.tok(P)}']


def ctf_phase(f, j):
    p = [f.tok(rapp(f'lat{i}', [j])) for i in range(6)]
    return (f'{";".join(p[:3])}\t{";".join(p[3:])}\t{phase_name(f, j)}\t{f.tok(iapp("laue", [j]))}\t{f.tok(iapp("space", [j]))}'
            '\t3803863129_5.0.6.3\t-906185425\t[ICSD]\n')


def cell(c, k):
    return iapp(f'col{c}', [k]) if c in INTS else rapp(f'col{c}', [k])


def ctf(ctx, cols, acq=True):
    f = Files(ctx)
    h, w, P = dims('h', 'w', 'P')
    f.files['dir/map.ctf'] = text.Content([
        ctf_header(f, h, w, P, acq), SSeq(P, lambda j: ctf_phase(f, j)), ['\t'.join(cols)],
        SSeq(h * w, lambda k: '\t'.join(f.tok(cell(c, k)) for c in cols) + '\n')])
    L = f.F.EBSDDataLoader.get_loader(None, f.path('dir/map.ctf'))
    L.load(f.path('dir/map.ctf'))
    m, d = L.loaded_metadata, L.loaded_data
    ctx.prove('shape', and_(len(m['shape']) == 2, mk(m['shape'][0] == h), mk(m['shape'][1] == w)))
    same(ctx, 'step size', SReal.of(m['step_size']), rvar('step'))
    ctx.prove('acquisition rotation', len(f.rot) == 1 and m['acquisition_rotation'] == ('rotation', 1) and len(f.rot[0]) == 3)
    for i in range(3):
        same(ctx, f'acquisition angle {i}', SReal.of(f.rot[0][i]), rvar(f'acq{i}') * PI / 180 if acq else SReal.const(0))
    ph = m['phases']
    ctx.prove('number of phases', mk(ph._dv_len() == P))
    j, = generic_index((P,), 'j')
    p = ph[j]
    ctx.prove('name', p.name == phase_name(f, j))
    ctx.prove('groups', and_(mk(p.laue_group == iapp('laue', [j])), mk(p.space_group == iapp('space', [j]))))
    ctx.prove('lattice', len(p.lattice_params) == 6)
    for i in range(6):
        v = deg3(rapp(f'lat{i}', [j]))
        same(ctx, f'lattice parameter {i}', SReal.of(p.lattice_params[i]), v if i < 3 else v * PI / 180)
    i, j = generic_index((h, w), 'g')
    k = i * w + j
    for name, c in (('band_contrast', 'BC'), ('band_slope', 'BS'), ('mean_angular_deviation', 'MAD'), ('phase', 'Phase')):
        a = d[name]
        ctx.prove(f'{name}: shape', and_(len(a.shape) == 2, mk(a.shape[0] == h), mk(a.shape[1] == w)))
        same(ctx, f'{name}: value of the line of the pixel', SReal.of(a.get((i, j))), SReal.of(cell(c, k)))
    e = d.euler_angle
    ctx.prove('angles: shape', and_(len(e.shape) == 3, mk(e.shape[0] == 3), mk(e.shape[1] == h), mk(e.shape[2] == w)))
    for n in range(3):
        same(ctx, f'angle {n} in radians', SReal.of(e.get((n, i, j))), cell(f'Euler{n + 1}', k) * PI / 180)


@target('ctf', def_mode='assume')
def t1(ctx):
    ctf(ctx, STANDARD)


@target('ctf_columns', def_mode='assume')
def t2(ctx):
    # columns in another order, some left out
    ctf(ctx, ['X', 'Y', 'Euler3', 'BC', 'Phase', 'MAD', 'Euler2', 'Euler1', 'BS'], acq=False)


def ang_header(f, h, w, phases, sep=False):
    out = ['# TEM_PIXperUM          1.000000', '# x-star                0.413900', '# WorkingDistance       27.100000', '#']
    for p in range(1, phases + 1):
        lat = ' '.join(f.tok(rapp(f'lat{i}', [p])) for i in range(6))
        out += [f'# Phase {p}', f'# MaterialName      {f.tok(iapp("name", [p]))}', '# Formula', '# Info',
                f'# Symmetry              {("m3m", "6/mmm", "43")[p % 3]}', f'# LatticeConstants      {lat}', '# NumberFamilies        4',
                '# hklFamilies           1  1  1 1 0.000000 1', '# Categories 0 0 0 0 0', '#']
    return out + ['# GRID: SqrGrid', f'# XSTEP: {f.tok(rvar("step"))}', f'# YSTEP: {f.tok(rvar("step"))}', f'# NCOLS_ODD: {f.tok(w)}',
                  f'# NCOLS_EVEN: {f.tok(w)}', f'# NROWS: {f.tok(h)}', '#', '# OPERATOR:      me', '#', '# SAMPLEID:', '#', '# SCANID:', '#']


def ang_cell(c, k):
    return iapp('phase', [k]) if c == 7 else rapp(f'col{c}', [k])


def maps(ctx, d, h, w, names):
    i, j = generic_index((h, w), 'g')
    k = i * w + j
    for name, v in names:
        a = d[name]
        ctx.prove(f'{name}: shape', and_(len(a.shape) == 2, mk(a.shape[0] == h), mk(a.shape[1] == w)))
        same(ctx, f'{name}: value of the line of the pixel', SReal.of(a.get((i, j))), SReal.of(v(k)))
    e = d.euler_angle
    ctx.prove('angles: shape', and_(len(e.shape) == 3, mk(e.shape[0] == 3), mk(e.shape[1] == h), mk(e.shape[2] == w)))
    return i, j, k


def ang(ctx, phases):
    f = Files(ctx)
    h, w = dims('h', 'w')
    f.files['m.ang'] = text.Content([
        ang_header(f, h, w, phases), SSeq(h * w, lambda k: '  ' + '  '.join(f.tok(ang_cell(c, k)) for c in range(10)) + '\n')])
    L = f.F.EBSDDataLoader.get_loader(None, f.path('m.ang'))
    L.load(f.path('m.ang'))
    m, d = L.loaded_metadata, L.loaded_data
    ctx.prove('shape', and_(len(m['shape']) == 2, mk(m['shape'][0] == h), mk(m['shape'][1] == w)))
    same(ctx, 'step size', SReal.of(m['step_size']), rvar('step'))
    ph = m['phases']
    ctx.prove('number of phases', len(ph) == phases)
    for p in range(1, phases + 1):
        q = ph[p - 1]
        ctx.prove('name', q.name == f.tok(iapp('name', [p])))
        ctx.prove('symmetry', q.laue_group == (11, 9, 11)[p % 3])
        for i in range(6):
            v = deg3(rapp(f'lat{i}', [p]))
            same(ctx, f'lattice parameter {i}', SReal.of(q.lattice_params[i]), v if i < 3 else v * PI / 180)
    ctx.prove('range of the phase map', d['phase', 'plot_params']['vmax'] == phases)
    i, j, k = maps(ctx, d, h, w, [('image_quality', lambda k: ang_cell(5, k)), ('confidence_index', lambda k: ang_cell(6, k)),
                                  ('fit_factor', lambda k: ang_cell(9, k)), ('phase', lambda k: ang_cell(7, k) + 1)])
    e = d.euler_angle
    v = ang_cell(0, k)
    same(ctx, 'first angle from the x axis of the map, from 0 to 2 pi', SReal.of(e.get((0, i, j))), ite(mk(v < PI / 2), v + 3 * PI / 2, v - PI / 2))
    for n in (1, 2):
        same(ctx, f'angle {n}', SReal.of(e.get((n, i, j))), ang_cell(n, k))


@target('ang', def_mode='assume', bounded='one phase')
def t3(ctx):
    ang(ctx, 1)


@target('ang_phases', def_mode='assume', bounded='three phases')
def t4(ctx):
    ang(ctx, 3)


@target('ang_refused', def_mode='assume')
def t5(ctx):
    for old, new in (('# GRID: SqrGrid', '# GRID: HexGrid'), ('# Phase 2', '# Phase 3'), ('6/mmm', '622')):
        f = Files(ctx)
        h, w = dims('h', 'w')
        head = [s.replace(old, new) for s in ang_header(f, h, w, 3)]
        f.files['m.ang'] = text.Content([head, SSeq(h * w, lambda k: '  '.join(f.tok(ang_cell(c, k)) for c in range(10)) + '\n')])
        try:
            f.F.EdaxAngLoader().load(f.path('m.ang'))
            ctx.prove(f'{new} is refused', False)
        except ValueError:
            ctx.prove(f'{new} is refused', True)


# record of the binary file: phase, then the fields in the order listed
FIELDS = {3: ('ph1', 'f'), 4: ('phi', 'f'), 5: ('ph2', 'f'), 6: ('MAD', 'f'), 7: ('BC', 'u'), 8: ('BS', 'u'), 10: ('bands', 'u'), 11: ('AFI', 'u'),
          12: ('IB6', 'f'), 99: ('other', 'f'), 98: ('other2', 'f'), 101: ('Fe', 'f'), 102: ('Ti', 'f')}


def cpr(ctx, ids, phases, edx, space=True):
    f = Files(ctx)
    h, w = dims('h', 'w')
    t = f.tok
    lines = ['; comment', '[General]', 'Version=5.0', 'Date=', '', '[Job]', 'Magnification=2000', f'xCells={t(w)}', f'yCells={t(h)}', 'NoOfPoints=9',
             f'GridDistX={t(rvar("step"))}', f'GridDistY={t(rvar("ystep"))}', '', '[Acquisition Surface]']
    lines += [f'Euler{i + 1}={t(rvar(f"acq{i}"))}' for i in range(3)] + ['', '[Fields]', f'Count={len(ids)}']
    lines += [f'Field{i + 1}={v}' for i, v in enumerate(ids)] + ['', '[Phases]', f'Count={phases}']
    for p in range(1, phases + 1):
        lines += ['', f'[Phase{p}]', f'StructureName=Ti {t(iapp("name", [p]))} hcp', 'Reference=x']
        lines += [f'{n}={t(rapp(f"lat{i}", [p]))}' for i, n in enumerate(('a', 'b', 'c', 'alpha', 'beta', 'gamma'))]
        lines += [f'LaueGroup={t(iapp("laue", [p]))}'] + ([f'SpaceGroup={t(iapp("space", [p]))}'] if space else []) + ['; comment']
    if edx:
        lines += ['', '[EDX Windows]', 'Type=1', f'Count={edx}'] + [f'Window{i + 1}={n}' for i, n in enumerate(('Fe', 'Ti')[:edx])]
    f.files['d/m.cpr'] = text.Content([lines])
    f.files['d/m.crc'] = 'records'

    def fromfile(name, dtype, count=-1):
        ctx.prove('records of the data file', str(name) == 'd/m.crc' and count == -1)
        want = [('phase', 'u')] + [FIELDS[i] for i in ids]
        ctx.prove('layout of a record', len(dtype.names) == len(want) and all(
            dtype[i].kind == k and dtype[i].itemsize == (1 if k == 'u' else 4) for i, (n, k) in enumerate(want)))
        return text.Table({n: SArr.fn((h * w,), lambda i, m=m, k=k: iapp('rec' + m, [i[0]]) if k == 'u' else rapp('rec' + m, [i[0]]),
                                      'i' if k == 'u' else 'f') for n, (m, k) in zip(dtype.names, want)}, dtype)
    f.F.np.fromfile = fromfile
    name = 'd/m.cpr' if edx else 'd/m.crc'
    L = f.F.EBSDDataLoader.get_loader(None, f.path(name))
    L.load(f.path(name))
    m, d = L.loaded_metadata, L.loaded_data
    ctx.prove('shape', and_(len(m['shape']) == 2, mk(m['shape'][0] == h), mk(m['shape'][1] == w)))
    same(ctx, 'step size', SReal.of(m['step_size']), rvar('step'))
    ctx.prove('acquisition rotation', len(f.rot) == 1 and m['acquisition_rotation'] == ('rotation', 1) and len(f.rot[0]) == 3)
    for i in range(3):
        same(ctx, f'acquisition angle {i}', SReal.of(f.rot[0][i]), rvar(f'acq{i}') * PI / 180)
    ctx.prove('number of phases', len(m['phases']) == phases and d['phase', 'plot_params']['vmax'] == phases)
    for p in range(1, phases + 1):
        q = m['phases'][p - 1]
        ctx.prove('name', q.name == f'Ti {t(iapp("name", [p]))} hcp')
        ctx.prove('groups', and_(mk(q.laue_group == iapp('laue', [p])), mk(q.space_group == (iapp('space', [p]) if space else 0))))
        for i in range(6):
            v = deg3(rapp(f'lat{i}', [p]))
            same(ctx, f'lattice parameter {i}', SReal.of(q.lattice_params[i]), v if i < 3 else v * PI / 180)
    i, j, k = maps(ctx, d, h, w, [('band_contrast', lambda k: iapp('recBC', [k])), ('band_slope', lambda k: iapp('recBS', [k])),
                                  ('mean_angular_deviation', lambda k: rapp('recMAD', [k])), ('phase', lambda k: iapp('recphase', [k]))]
                   + [(f'EDX {n}', lambda k, n=n: rapp('rec' + n, [k])) for n in ('Fe', 'Ti')[:edx]])
    for n, v in enumerate(('ph1', 'phi', 'ph2')):
        same(ctx, f'angle {n}', SReal.of(d.euler_angle.get((n, i, j))), rapp('rec' + v, [k]))
    ctx.prove('windows counted', m['edx']['Count'] == edx)


@target('cpr', def_mode='assume', bounded='header with the usual fields, up to three phases')
def t6(ctx):
    cpr(ctx, [3, 4, 5, 6, 7, 8, 10, 11], 2, 0)


@target('cpr_fields', def_mode='assume', bounded='header with other fields, up to three phases')
def t7(ctx):
    # fields in another order, some unknown, windows of elements
    cpr(ctx, [7, 99, 5, 3, 102, 12, 6, 98, 4, 101, 8], 1, 2, space=False)


@target('dictionary', def_mode='assume')
def t8(ctx):
    f = Files(ctx)
    h, w = dims('h', 'w')
    ph, eu, bc = arr((h, w), 'ph', 'i'), arr((3, h, w), 'eu'), arr((h, w), 'bc', 'i')
    phases = [Rec(f'p{i}', 1, 2, ()) for i in range(3)]
    given = dict(step_size=rvar('step'), phases=phases, phase=ph, euler_angle=eu, band_contrast=bc)
    L = f.F.EBSDDataLoader.get_loader('PythonDict', None)
    L.load(given)
    m, d = L.loaded_metadata, L.loaded_data
    ctx.prove('shape', and_(mk(m['shape'][0] == h), mk(m['shape'][1] == w)))
    same(ctx, 'step size', SReal.of(m['step_size']), rvar('step'))
    ctx.prove('phases', len(m['phases']) == 3 and all(a is b for a, b in zip(m['phases'], phases)) and d['phase', 'plot_params']['vmax'] == 3)
    eq_arrays(ctx, 'phase', d.phase, ph)
    eq_arrays(ctx, 'angles', d.euler_angle, eu)
    eq_arrays(ctx, 'band contrast', d.band_contrast, bc)
    for wrong in ('phases', 'phase', 'euler_angle'):
        bad = dict(given)
        bad[wrong] = {'phases': phases + ['fcc'], 'phase': arr((h + 1, w), 'ph', 'i'), 'euler_angle': arr((3, w + h, h), 'eu')}[wrong]
        try:
            f.F.PythonDictLoader().load(bad)
            ctx.prove(f'{wrong} that do not agree are refused', False)
        except AssertionError:
            ctx.prove(f'{wrong} that do not agree are refused', True)


@target('choice')
def t9(ctx):
    f = Files(ctx)
    F = f.F
    for s, c in (('crc', F.OxfordBinaryLoader), ('cpr', F.OxfordBinaryLoader), ('ctf', F.OxfordTextLoader), ('ang', F.EdaxAngLoader),
                 ('dat', F.OxfordBinaryLoader)):
        ctx.prove(f'loader of .{s}', type(F.EBSDDataLoader.get_loader(None, f.path('m.' + s))) is c)
        for n, k in (('OxfordBinary', F.OxfordBinaryLoader), ('oxfordtext', F.OxfordTextLoader), ('EdaxAng', F.EdaxAngLoader),
                     ('PythonDict', F.PythonDictLoader)):
            ctx.prove(f'loader {n}', type(F.EBSDDataLoader.get_loader(n, f.path('m.' + s))) is k)
    for n, k, sub in ((None, F.DavisLoader, ''), ('Davis', F.DavisLoader, ''), ('OpenPIV', F.OpenPivTextLoader, ''),
                      ('OpenPivText', F.OpenPivTextLoader, ''), ('openpivbinary', F.OpenPivBinaryLoader, ''),
                      ('PyVale-csv', F.PyValeLoader, 'csv'), ('pyvale-Binary', F.PyValeLoader, 'binary')):
        L = F.DICDataLoader.get_loader(n)
        ctx.prove(f'loader {n}', type(L) is k and L.file_type == sub)
    for g in (lambda: F.EBSDDataLoader.get_loader('hdf5', f.path('m.ctf')), lambda: F.DICDataLoader.get_loader('hdf5')):
        try:
            g()
            ctx.prove('unknown type is refused', False)
        except ValueError:
            ctx.prove('unknown type is refused', True)
    for L in (F.OxfordTextLoader(), F.EdaxAngLoader(), F.OxfordBinaryLoader(), F.DavisLoader(), F.OpenPivTextLoader(), F.OpenPivBinaryLoader(),
              F.PyValeLoader('csv')):
        try:
            L.load(f.path('none.ctf'))
            ctx.prove('missing file is refused', False)
        except FileNotFoundError:
            ctx.prove('missing file is refused', True)


# ---- displacement data ---------------------------------------------------------
class Grid:
    """points b apart, row by row: the smallest and largest of their coordinates and of the differences between successive ones"""

    def __init__(self, ctx, h, w, b, offsets):
        self.ctx, self.h, self.w, self.b, self.offsets = ctx, h, w, b, offsets
        ctx.on_reduction = self.reduction

    def product(self, x):
        """b x is not negative where x is not"""
        if isinstance(x, SInt):
            z3 = T.z3
            self.base.append(z3.Implies(x.e >= 0, z3.ToReal(x.e) * T.p_z3(SReal.of(self.b).p) >= 0))
            self.ctx.define(SBool(self.base[-1]))

    def reduction(self, kind, out, red):
        from pydv.arr import ravel_index, RAVEL
        ctx, h, w = self.ctx, self.h, self.w
        if kind not in ('min', 'max') or red.masked:
            return None
        better = (lambda a, b: a <= b) if kind == 'min' else (lambda a, b: a >= b)
        i, j = SInt(T.z3.Int(ctx.fresh('row'))), SInt(T.z3.Int(ctx.fresh('col')))
        inside = and_(i >= 0, i < h, j >= 0, j < w)
        ctx.define(inside)
        self.base = [SBool.of(and_(inside, h >= 2, w >= 2, self.b >= 1)).e]
        for x in (i, h - 1 - i, j, w - 1 - j, h - 2, w - 2, j - 1, w - 2 - j):
            self.product(x)
        pos = lambda p, q: ravel_index((p, q), (h, w))
        # the first two points of the first row (there are two columns): division of 0 and 1 by w
        z3 = T.z3
        I = z3.IntSort()
        for k in (0, 1):
            f = [z3.Function(f'unravel2.{n}', I, I, I, I)(z3.IntVal(k), SInt.ex(h), SInt.ex(w)) for n in range(2)]
            self.base.append(z3.And(f[0] == 0, f[1] == k))
            ctx.define(SBool(self.base[-1]))
        corners = [(0, 0), (h - 1, w - 1), (0, w - 1), (h - 1, 0)]
        if len(red.flat) == 2:
            best = corners
            generic = [(True, (i, j))]
        elif len(red.flat) == 1 and ent(red.ra[0] == h * w):
            best = [(pos(*p),) for p in corners]
            generic = [(True, (pos(i, j),))]
        elif len(red.flat) == 1 and ent(red.ra[0] == h * w - 1):
            # between neighbours in a row, and from the end of a row to the next
            for p, q in ((0, 0), (0, 1), (0, w - 1), (1, 0)):
                pos(p, q)
            best = [(0,), (pos(0, w - 1),)]
            generic = [(j < w - 1, (pos(i, j),)), (i < h - 1, (pos(i, w - 1),))]
            with ctx.scope([j < w - 1]):
                pos(i, j + 1)
            with ctx.scope([i < h - 1]):
                # the next point: i w + (w - 1) + 1 = (i + 1) w
                RAVEL[(pos(i, w - 1) + 1).k] = RAVEL[pos(i + 1, 0).k]
        else:
            return None
        vals = []
        for c, g in generic:
            with ctx.scope([c] if c is not True else []):
                vals.append((c, SReal.of(red.at(g))))
        for p in best:
            v = SReal.of(red.at(p))
            if all(self.follows(T.implies(c, better(v, x))) for c, x in vals):
                for c, x in vals:
                    ctx.prove('extremum of the coordinates', T.implies(c, better(v, x)))
                v = self.plain(v)
                ctx.define(T.SBool.of(mk(out == v)))
                return v
        return None

    def follows(self, c):
        """a guess: what is used of it is proved"""
        c = mk(c)
        if isinstance(c, bool):
            return c
        s = T.z3.Solver()
        s.set('timeout', 10000)
        e = T.z3.Not(c.e)
        s.add(e, *self.base, *T.axioms_for([e, *self.base]))
        return s.check() == T.z3.unsat

    def plain(self, v):
        """the value in terms of the size of the grid"""
        b, h, w = self.b, self.h, self.w
        for c in (v, b, *(s * b + o for s in (h - 1, w - 1) for o in self.offsets), *self.offsets):
            if c is not v and self.follows(v == SReal.of(c)):
                return SReal.of(c)
        return v


def ent(c):
    from pydv.arr import ent as f
    return f(c)


@target('check_data', def_mode='assume')
def t10(ctx):
    f = Files(ctx)
    h, w = dims('h', 'w', lo=2)
    h2, w2 = dims('hh', 'hw')
    b, b2 = dims('b', 'bh')
    x0, y0 = rvar('x0'), rvar('y0')
    Grid(ctx, h, w, b.to_real(), (x0, y0))
    L = f.F.DavisLoader()
    L.loaded_metadata['binning'], L.loaded_metadata['shape'] = b2, (h2, w2)
    L.loaded_data.coordinate = SArr.fn((2, h, w), lambda i: x0 + b * i[2] if i[0] == 0 else y0 + b * i[1], 'f')
    agree = and_(mk(b == b2), mk(h == h2), mk(w == w2))
    try:
        L.check_data()
    except ValueError:
        ctx.prove('refused only if header and coordinates differ', not_(agree))
        return
    ctx.prove('accepted only if header and coordinates agree', agree)


def read_table(files):
    """contract of pandas.read_table for a table of numbers without names"""
    def f(name, delimiter='\t', skiprows=0, header='infer'):
        if delimiter != '\t' or header is not None:
            raise Unsupported('read_table')
        return Values(text.loadtxt(files)(name, delimiter='\t', skiprows=skiprows, comments=None))
    return f


class Values:
    """what pandas.read_table returns for a table of numbers"""

    def __init__(self, a):
        self.values = a

    def to_numpy(self):
        return self.values

    _dv_seq = True

    def to_array(self, d=None):
        return self.values


def dic_files(ctx):
    f = Files(ctx)
    h, w = dims('h', 'w', lo=2)
    f.F.pd.read_table = read_table(f.files)
    f.checked = []
    f.F.DICDataLoader.check_data = lambda self: f.checked.append(self)
    return f, h, w


def measured(ctx, L, f, h, w, b, coord, disp, row=lambda i: i, name=''):
    """shape, binning, coordinates and displacements of the pixels; checked at the end"""
    m, d = L.loaded_metadata, L.loaded_data
    ctx.prove(f'{name}shape', and_(len(m['shape']) == 2, mk(m['shape'][0] == h), mk(m['shape'][1] == w)))
    same(ctx, f'{name}binning', SReal.of(m['binning']), SReal.of(b))
    ctx.prove(f'{name}the data is checked', len(f.checked) == 1 and f.checked[0] is L)
    i, j = generic_index((h, w), 'g')
    for n, vals in (('coordinate', coord), ('displacement', disp)):
        a = d[n]
        ctx.prove(f'{name}{n}: shape', and_(len(a.shape) == 3, mk(a.shape[0] == 2), mk(a.shape[1] == h), mk(a.shape[2] == w)))
        for c in range(2):
            same(ctx, f'{name}{n} {c}', SReal.of(a.get((c, i, j))), SReal.of(vals[c](row(i), j)))


@target('davis', def_mode='assume')
def t11(ctx):
    f, h, w = dic_files(ctx)
    b = ivar('b')
    f.files['d.txt'] = text.Content([[f'#DaVis 8.4.0 2D-vector {f.tok(b)} {f.tok(h)} {f.tok(w)} "" "" "" "" pixel pixel pixel'],
                                     SSeq(h * w, lambda k: '\t'.join(f.tok(rapp(f'c{c}', [k])) for c in range(4)) + '\n')])
    L = f.F.DICDataLoader.get_loader(None)
    L.load(f.path('d.txt'))
    ctx.prove('format', L.loaded_metadata['format'] == 'DaVis' and L.loaded_metadata['version'] == '8.4.0')
    v = lambda c: lambda i, j: rapp(f'c{c}', [i * w + j])
    measured(ctx, L, f, h, w, b, (v(0), v(1)), (v(2), v(3)))


@target('davis_image', def_mode='assume')
def t12(ctx):
    f = Files(ctx)
    f.F.pd.read_table = read_table(f.files)
    h, = (dims('h'),)
    f.files['p.txt'] = text.Content([['#DaVis 8.4.0 2D-image 4 5'], SSeq(h, lambda k: '\t'.join(f.tok(iapp(f'c{c}', [k])) for c in range(5)) + '\n')])
    a = f.F.DavisLoader.load_davis_image_data(f.path('p.txt'))
    ctx.prove('shape', and_(len(a.shape) == 2, mk(a.shape[0] == h), mk(a.shape[1] == 5)))
    i, j = generic_index((h, 5), 'g')
    for c in range(5):
        same(ctx, f'column {c}', SReal.of(a.get((i, c))), SReal.of(iapp(f'c{c}', [i])))
    try:
        f.F.DavisLoader.load_davis_image_data(f.path('q.txt'))
        ctx.prove('missing file is refused', False)
    except FileNotFoundError:
        ctx.prove('missing file is refused', True)


def openpiv(ctx, descending):
    f, h, w = dic_files(ctx)
    b = dims('b')
    half = b.to_real() / 2
    Grid(ctx, h, w, b.to_real(), (half,))
    from pydv.arr import unravel
    x = lambda i, j: half + b * j
    y = lambda i, j: half + b * (h - 1 - i if descending else i)
    u, v = (lambda i, j: rapp('u', [i, j])), (lambda i, j: rapp('v', [i, j]))

    def line(k):
        i, j = unravel(k, (h, w))
        return '\t'.join(f.tok(SReal.of(q(i, j))) for q in (x, y, u, v)) + '\t' + f.tok(iapp('flags', [k])) + '\n'
    f.files['d.txt'] = text.Content([['# x\ty\tu\tv\tflags'], SSeq(h * w, line)])
    L = f.F.DICDataLoader.get_loader('OpenPIV')
    L.load(f.path('d.txt'))
    measured(ctx, L, f, h, w, b, (x, y), (u, v), row=lambda i: h - 1 - i if descending else i)


@target('openpiv', def_mode='assume')
def t13(ctx):
    openpiv(ctx, False)


@target('openpiv_descending', def_mode='assume')
def t14(ctx):
    openpiv(ctx, True)


@target('openpiv_binary', def_mode='assume')
def t15(ctx):
    for descending in (False, True):
        f, h, w = dic_files(ctx)
        b = dims('b')
        x = lambda i, j: rvar('x0') + b * j
        y = lambda i, j: rvar('y0') + b * (h - 1 - i if descending else i)
        u, v = (lambda i, j: rapp('u', [i, j])), (lambda i, j: rapp('v', [i, j]))
        data = {n: SArr.fn((h, w), lambda i, q=q: SReal.of(q(*i)), 'f') for n, q in (('x', x), ('y', y), ('u', u), ('v', v))}
        data.update(format='OpenPIV', version='1', binning=b, shape=npshape(h, w))
        f.files['d.npz'] = None
        f.F.np.load = lambda p: data
        L = f.F.DICDataLoader.get_loader('OpenPivBinary')
        L.load(f.path('d.npz'))
        measured(ctx, L, f, h, w, b, (x, y), (u, v), row=lambda i: h - 1 - i if descending else i, name='descending: ' if descending else '')


def npshape(h, w):
    return SArr.fn((2,), lambda i: ite(mk(i[0] == 0), h, w), 'i')


class ByPosition:
    """number of the point at a position: exists because no two points of the file are at the same position"""

    def __init__(self, ctx):
        z3 = T.z3
        I = z3.IntSort()
        self.fr = z3.Function('point at', I, I, I)
        self.es = None
        ctx.inverses = getattr(ctx, 'inverses', []) + [self]

    def solve(self, es, k, mentions):
        self.es, self.k = es, k
        return es

    def inverse(self, r, idx):
        return SInt(self.fr(*[SInt.ex(idx[p]) for p, _ in r]))

    def instance(self, ctx, k0):
        """the point at the position of point k0 is point k0"""
        at = [T.subst(e, [(self.k, k0)]) for _, e in self.es]
        ctx.define(mk(SInt(self.fr(*[SInt.ex(x) for x in at])) == k0))
        # what division with remainder is, for the quotients in them
        for e in at:
            todo = [SInt.ex(e)]
            while todo:
                t = todo.pop()
                if t.decl().name() == 'quo':
                    a, b = t.children()
                    r = a - b * t
                    ctx.define(SBool(T.z3.Implies(b > 0, T.z3.And(r >= 0, r < b))))
                todo += t.children()
        return at


def quotient(b, p, t, y, o):
    """y = o + p b and t the quotient of y - o by b: t is p"""
    return [b > 0, mk(y == o + p * b), y - o - b * t >= 0, y - o - b * t < b], mk(t == p)


def lemma(ctx, f, *a):
    """the conclusion where its premises are proved (the lemma is an obligation of its own)"""
    pre, post = f(*a)
    for i, x in enumerate(pre):
        ctx.prove(f'premise {i}', x)
    ctx.define(post)
    return post


@target('quotient')
def t_quotient(ctx):
    pre, post = quotient(*[ivar(x) for x in 'bptyo'])
    for x in pre:
        ctx.fact(x)
    ctx.prove('quotient of a multiple', post)


def pyvale(ctx, kind):
    f, _, _ = dic_files(ctx)
    n = dims('n', lo=2)
    col = dict(x=lambda k: iapp('x', [k]), y=lambda k: iapp('y', [k]), u=lambda k: rapp('u', [k]), v=lambda k: rapp('v', [k]))
    names = ('x', 'y', 'u', 'v', 'displacement_mag', 'converged', 'cost', 'ftol', 'xtol', 'num_iterations')
    ints = ('x', 'y', 'converged', 'num_iterations')
    cell = lambda c, k: col[c](k) if c in col else iapp(c, [k]) if c in ints else rapp(c, [k])
    if kind == 'csv':
        f.files['d.csv'] = text.Content([[','.join(names)], SSeq(n, lambda k: ','.join(f.tok(cell(c, k)) for c in names) + '\n')])
    else:
        f.files['d.csv'] = 'records'

        def fromfile(name, dtype, count=-1):
            sizes = dict(x=('i', 4), y=('i', 4), converged=('u', 1), num_iterations=('i', 4))
            ctx.prove('records of the file', str(name) == 'd.csv' and count == -1 and tuple(dtype.names) == names and all(
                (dtype[c].kind, dtype[c].itemsize) == sizes.get(c, ('f', 8)) for c in names))
            return text.Table({c: SArr.fn((n,), lambda i, c=c: cell(c, i[0]), 'i' if c in ints else 'f') for c in names}, dtype)
        f.F.np.fromfile = fromfile
    by = ByPosition(ctx)
    L = f.F.DICDataLoader.get_loader('PyVale-' + kind)
    try:
        L.load(f.path('d.csv'))
    except AssertionError:
        ctx.prove('nothing loaded from points that are not on a grid', L.loaded_data.displacement is None)
        return
    m, d = L.loaded_metadata, L.loaded_data
    h, w = m['shape']
    b = m['binning']
    ctx.prove('the data is checked', len(f.checked) == 1 and f.checked[0] is L)
    for a in (d.coordinate, d.displacement):
        ctx.prove('shape', and_(len(a.shape) == 3, mk(a.shape[0] == 2), mk(a.shape[1] == h), mk(a.shape[2] == w)))
    x0, y0 = (SInt.mk(SInt.ex(int_of(d.coordinate.get((c, 0, 0))))) for c in range(2))
    i, j = generic_index((h, w), 'g')
    same(ctx, 'x of a pixel', SReal.of(d.coordinate.get((0, i, j))), SReal.of(x0 + j * b))
    same(ctx, 'y of a pixel', SReal.of(d.coordinate.get((1, i, j))), SReal.of(y0 + i * b))
    # no displacement where there is no point
    r = by.inverse(by.es, {q: v for (q, _), v in zip(by.es, (i, j))})
    there = and_(r >= 0, r < n, *[mk(T.subst(e, [(by.k, r)]) == v) for (_, e), v in zip(by.es, (i, j))])
    for c, name in enumerate('uv'):
        same(ctx, f'displacement {c} of a pixel', SReal.of(d.displacement.get((c, i, j))), ite(there, col[name](r), SReal.const(0)))
    # a point of the file
    k = ivar('k')
    ctx.fact(and_(k >= 0, k < n))
    p, q = ivar('p'), ivar('q')
    ctx.fact(and_(mk(iapp('x', [k]) == x0 + q * b), mk(iapp('y', [k]) == y0 + p * b)))
    at = by.instance(ctx, k)
    have(ctx, 'step of the grid', b > 0)
    for t, v, o, c in zip(at, (p, q), (y0, x0), 'yx'):
        lemma(ctx, quotient, b, v, t, iapp(c, [k]), o)
    ctx.prove('every point is in the map', and_(p >= 0, p < h, q >= 0, q < w))
    for c, name in enumerate('uv'):
        same(ctx, f'displacement {c} of the point', SReal.of(d.displacement.get((c, p, q))), col[name](k))


def int_of(v):
    from pydv.arr import as_int
    return v if isinstance(v, (SInt, int)) else as_int(SReal.of(v))


@target('pyvale', def_mode='assume')
def t16(ctx):
    pyvale(ctx, 'csv')


@target('pyvale_binary', def_mode='assume')
def t17(ctx):
    pyvale(ctx, 'binary')
