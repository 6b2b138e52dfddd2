"""C23: writing a map as text and reading it back."""
from pydv.contract import *
from pydv import text
from contracts.c24 import Rec, Files, PI

LEVEL = 'proof'
NOTE = '''The real writer runs on a map of any size with any list of phases (loops over pixels, phases and lines are symbolic; what
is written is text with tokens for the numbers, rounded to the decimals of their format), then the real loader reads what it wrote: shape,
phase, band contrast, names and groups come back exactly, the line of each pixel gives its position to three decimals, the step and acquisition angles to four decimals, lattice parameters and Euler
angles to three (degrees). An existing file and an unknown type are refused. Map.save passes the map on. Runs save and load real maps.'''
ASSUME = [
    'text model and numpy.loadtxt as in property C24; real arithmetic; np.round rounds half to even as the format does',
    'Quat.euler_angles by contract (property C01): three angles from 0 to 2 pi per orientation',
    'phase numbers and band contrast from 0 to 255 (what the reader stores); names of phases without tabs',
]
TARGETS = {}
target = register(TARGETS)


class WPhase:
    """phase of the map that is saved"""

    def __init__(self, name, laue_group, spaceGroup, lattice_params):
        self.name, self.laue_group, self.spaceGroup, self.lattice_params = name, laue_group, spaceGroup, lattice_params


WPhase.__module__ = 'defdap.contract'


class Ori:
    def __init__(self, e):
        self.e = e

    def euler_angles(self):
        return np.array(list(self.e))


Ori.__module__ = 'defdap.contract'


class Written:
    """the real writer on a map of any size with any phases"""

    def __init__(self, ctx, group=True, space='some'):
        self.f = f = Files(ctx)
        W = S().file_writers
        h, w, P = dims('h', 'w', 'P')
        self.h, self.w, self.P, self.out, self.modes = h, w, P, {}, []

        def open_(name, mode='r', **k):
            self.modes.append(mode)
            assert mode in ('w', 'wt', 'x')
            o = self.out[str(name)] = text.Out()
            return o
        W.open = open_

        class lib:
            @staticmethod
            def Path(p):
                return p if isinstance(p, text.Path) else text.Path(str(p) if str(p) != '.' else '', f.files)
        W.pathlib = lib
        self.W = W
        self.step = rvar('step')
        self.writer = wr = W.EBSDDataWriter.get_writer(None)
        wr.metadata['shape'] = (h, w)
        wr.metadata['step_size'] = self.step
        acq = [rvar(f'acq{i}') for i in range(3)]
        for a in acq:
            ctx.assume(and_(a >= 0, a < 2 * PI))
        wr.metadata['acquisition_rotation'] = Ori(acq)
        self.phases = SSeq(P, lambda j: WPhase('Ti ' + f.tok(iapp('name', [j])) + ' hcp', iapp('laue', [j]), iapp('space', [j]) if space == 'some' else None,
                                               tuple(rapp(f'lat{i}', [j]) for i in range(6))))
        wr.metadata['phases'] = self.phases
        self.phase, self.bc = arr((h, w), 'phase', 'i'), arr((h, w), 'bc', 'i')
        wr.data['phase'], wr.data['band_contrast'] = self.phase, self.bc
        wr.data['quat'] = SArr.fn((h, w), lambda i: Ori([rapp(f'ori{c}', i) for c in range(3)]), 'O')
        wr.write('map', 'dir')

    def load(self, ctx):
        ctx.prove('the file is named and written once', list(self.out) == ['dir/map.ctf'] and self.modes in (['w'], ['wt'], ['x']))
        o = self.out['dir/map.ctf']
        ctx.prove('the file is closed', o.closed)
        self.f.files['dir/map.ctf'] = o.content()
        L = self.f.F.EBSDDataLoader.get_loader(None, self.f.path('dir/map.ctf'))
        L.load(self.f.path('dir/map.ctf'))
        return L


def roundtrip(ctx, space):
    r = Written(ctx, space=space)
    L = r.load(ctx)
    h, w, P = r.h, r.w, r.P
    m, d = L.loaded_metadata, L.loaded_data
    ctx.prove('shape', and_(len(m['shape']) == 2, mk(m['shape'][0] == h), mk(m['shape'][1] == w)))
    same(ctx, 'step size to four decimals', SReal.of(m['step_size']), np.round(r.step, 4))
    ctx.prove('acquisition rotation', len(r.f.rot) == 1 and m['acquisition_rotation'] == ('rotation', 1))
    for i in range(3):
        same(ctx, f'acquisition angle {i} to four decimals', SReal.of(r.f.rot[0][i]), np.round(rvar(f'acq{i}') * 180 / PI, 4) * PI / 180)
    ph = m['phases']
    ctx.prove('number of phases', mk(ph._dv_len() == P))
    j, = generic_index((P,), 'j')
    p = ph[j]
    ctx.prove('name', p.name == 'Ti ' + r.f.tok(iapp('name', [j])) + ' hcp')
    ctx.prove('groups', and_(mk(p.laue_group == iapp('laue', [j])), mk(p.space_group == (iapp('space', [j]) if space == 'some' else 0))))
    for i in range(6):
        v = rapp(f'lat{i}', [j])
        same(ctx, f'lattice parameter {i} to three decimals', SReal.of(p.lattice_params[i]),
             np.round(np.round(v, 3), 3) if i < 3 else np.round(np.round(v * 180 / PI, 3), 3) * PI / 180)
    i, j = generic_index((h, w), 'g')
    for n, a in (('phase', r.phase), ('band_contrast', r.bc)):
        ctx.prove(f'{n}: shape', and_(len(d[n].shape) == 2, mk(d[n].shape[0] == h), mk(d[n].shape[1] == w)))
        same(ctx, f'{n} of a pixel', SReal.of(d[n].get((i, j))), SReal.of(a.get((i, j))))
    table = r.f.files['dir/map.ctf'].parts[-1]
    head = r.f.files['dir/map.ctf'].parts[-2][-1].split()
    ctx.prove('one line for each pixel', mk(table.n == h * w))
    for n, at in (('X', j), ('Y', i)):
        same(ctx, f'{n} of the line of a pixel to three decimals', SReal.of(text.number_column(table, head.index(n), 'f').get((i * w + j,))),
             np.round(SReal.of(at) * r.step, 3))
    e = d.euler_angle
    ctx.prove('angles: shape', and_(len(e.shape) == 3, mk(e.shape[0] == 3), mk(e.shape[1] == h), mk(e.shape[2] == w)))
    for n in range(3):
        same(ctx, f'angle {n} of a pixel to three decimals', SReal.of(e.get((n, i, j))), np.round(rapp(f'ori{n}', (i, j)) * 180 / PI, 3) * PI / 180)


@target('roundtrip', def_mode='assume')
def t1(ctx):
    roundtrip(ctx, 'some')


@target('roundtrip_no_group', def_mode='assume')
def t2(ctx):
    roundtrip(ctx, None)


@target('refused')
def t3(ctx):
    f = Files(ctx)
    W = S().file_writers
    made = []
    W.open = lambda *a, **k: made.append(a)

    class lib:
        @staticmethod
        def Path(p):
            return p if isinstance(p, text.Path) else text.Path(str(p), {'dir/map.ctf': 1})
    W.pathlib = lib
    for t in (None, 'OxfordText'):
        wr = W.EBSDDataWriter.get_writer(t)
        ctx.prove(f'writer of {t}', type(wr) is W.OxfordTextWriter)
        h, w = dims('h', 'w')
        wr.metadata['shape'] = (h, w)
        try:
            wr.write('map', 'dir')
            ctx.prove('an existing file is not written', False)
        except FileExistsError:
            ctx.prove('an existing file is not written', not made)
    try:
        W.EBSDDataWriter.get_writer('hdf5')
        ctx.prove('unknown type is refused', False)
    except ValueError:
        ctx.prove('unknown type is refused', True)


class Recorder:
    def __init__(self):
        self.metadata, self.data, self.calls = {'acquisition_rotation': 'as it was'}, {}, []

    def write(self, file_name, file_dir=''):
        self.calls.append((file_name, file_dir))


@target('save', functions=['ebsd.Map.save'])
def t4(ctx):
    E = S().ebsd
    asked = []

    class Writers:
        @staticmethod
        def get_writer(t):
            asked.append(t)
            return rec
    E.EBSDDataWriter = Writers
    h, w = dims('h', 'w')
    for t in (None, 'OxfordText'):
        rec = Recorder()

        class M(E.Map):
            shape, step_size, phases = (h, w), rvar('step'), [object(), object()]

        class Data:
            phase, band_contrast = arr((h, w), 'phase', 'i'), arr((h, w), 'bc', 'i')
            orientation = SArr.fn((h, w), lambda i: Ori([rapp(f'ori{c}', i) for c in range(3)]), 'O')
        M.data = Data
        m = object.__new__(M)
        m.save('name', data_type=t, file_dir='dir')
        ctx.prove('type of the file', asked[-1] == t)
        ctx.prove('written once, where asked', rec.calls == [('name', 'dir')])
        ctx.prove('shape', and_(len(rec.metadata['shape']) == 2, mk(rec.metadata['shape'][0] == h), mk(rec.metadata['shape'][1] == w)))
        same(ctx, 'step size', SReal.of(rec.metadata['step_size']), M.step_size)
        ctx.prove('phases', len(rec.metadata['phases']) == 2 and all(a is b for a, b in zip(rec.metadata['phases'], M.phases)))
        eq_arrays(ctx, 'phase', rec.data['phase'], M.data.phase)
        eq_arrays(ctx, 'band contrast', rec.data['band_contrast'], M.data.band_contrast)
        i, j = generic_index((h, w), 'o')
        for c in range(3):
            same(ctx, 'orientation', rec.data['quat'].get((i, j)).e[c], rapp(f'ori{c}', (i, j)))
