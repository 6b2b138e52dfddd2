"""Text with symbolic numbers in it, and files made of it.

A number written into text is a token: one character sequence without white
space or punctuation that stands for its digits.  Splitting, stripping and
joining are Python's own; int() and float() of a token give the number
written, that is the value rounded to the decimals of the format.  A file is
a list of lines, some of them counted symbolically; open() of a contract
hands out such files."""
import re

from . import terms as T
from . import npf
from .terms import SInt, SReal, Unsupported, ite, vkey, CTX, mk
from .arr import SArr, ent
from .rt import DvList

LEFT, RIGHT = '\ue000', '\ue001'
TOKEN = re.compile(LEFT + r'(\d+)' + RIGHT)
FIXED = re.compile(r'\.(\d+)f')


class Text:
    def __init__(self):
        self.ids = {}
        self.vals = []

    def token(self, v):
        k = vkey(v)
        if k not in self.ids:
            self.ids[k] = len(self.vals)
            self.vals.append(v)
        return f'{LEFT}{self.ids[k]}{RIGHT}'

    def fmt(self, v, spec):
        """digits of a number in a format"""
        if isinstance(v, SInt):
            if spec in ('', 'd', 'r'):
                return self.token(v)
            v = v.to_real()
        if spec in ('', 'r'):
            return self.token(v)
        m = FIXED.fullmatch(spec)
        if not m:
            raise Unsupported(f'format {spec!r} of a symbolic number')
        d = int(m.group(1))
        r = npf.round_(SReal.of(v), d)
        if d == 0:
            from .arr import as_int
            return self.token(as_int(SReal.of(r)))
        return self.token(SReal.of(r))

    def number(self, s):
        """the value of a token, None if s is something else"""
        m = TOKEN.fullmatch(s.strip())
        if m:
            v = self.vals[int(m.group(1))]
            return None if isinstance(v, str) else v
        if TOKEN.search(s):
            raise ValueError(f'could not convert to a number: {s!r}')
        return None

    def values(self, s):
        return [self.vals[int(i)] for i in TOKEN.findall(s)]

    def subst(self, s, sub):
        return TOKEN.sub(lambda m: self.token(sub.val(self.vals[int(m.group(1))])), s) if LEFT in s else s

    def ite(self, c, a, b):
        """field by field"""
        x, y = re.split(r'([\s;]+)', a), re.split(r'([\s;]+)', b)
        if len(x) != len(y):
            raise Unsupported('merge of text of different structure')
        out = []
        for p, q in zip(x, y):
            if p == q:
                out.append(p)
                continue
            v, w = self.field(p), self.field(q)
            out.append(self.token(ite(c, v, w)))
        return ''.join(out)

    def field(self, p):
        v = self.number(p)
        if v is not None:
            return v
        if re.fullmatch(r'-?\d+', p):
            return int(p)
        if re.fullmatch(r'-?\d*\.\d*', p):
            from fractions import Fraction
            return SReal.const(Fraction(p))
        raise Unsupported(f'merge of text {p!r}')


def install():
    T.TEXT = Text()
    return T.TEXT


class Log(DvList):
    """what was written to a file: pieces of text, and pieces written once in
    each iteration of a loop"""

    def __init__(self):
        DvList.__init__(self)
        self.segs = []

    def append(self, s):
        f = self._guard()
        if f is not None:
            DvList.append(self, s)
        elif self.segs and isinstance(self.segs[-1], str):
            self.segs[-1] += s
        else:
            self.segs.append(s)

    def _extend_sym(self, seq):
        self.segs.append(seq)


class Out:
    """file opened for writing"""

    def __init__(self):
        self.log = Log()
        self.closed = False

    def write(self, s):
        if self.closed:
            raise ValueError('write to a closed file')
        if not isinstance(s, str):
            raise TypeError('write() argument must be str')
        self.log.append(s)

    def writelines(self, ss):
        for s in ss:
            self.write(s)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def content(self):
        """lines of the file: lists of lines and sequences of lines"""
        out = []
        for s in self.log.segs:
            if isinstance(s, str):
                if not s.endswith('\n'):
                    raise Unsupported('line continued in a loop')
                out.append(s[:-1].split('\n'))
            else:
                out.append(s)
        return Content(out)


class Content:
    """lines of a file; a part is a list of lines (without the newline) or a
    sequence of lines that end with one newline each"""

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            self.parts.append([s + '\n' for s in p] if isinstance(p, list) else p)

    def size(self, p):
        return len(p) if isinstance(p, list) else p.n

    def count(self):
        n = 0
        for p in self.parts:
            n = n + self.size(p)
        return n

    def find(self, k):
        """part and line in it of line k (None at the end)"""
        for p in self.parts:
            n = self.size(p)
            c = mk(k < n)
            if c is True or (c is not False and (ent(k < n) or (not ent(k >= n) and bool(c)))):
                return p, k
            k = k - n
        return None, k

    def line(self, k):
        p, j = self.find(k)
        if p is None:
            return ''
        if isinstance(p, list):
            if isinstance(j, int):
                return p[j]
            for i in range(len(p)):
                if ent(j == i):
                    return p[i]
            raise Unsupported('line number in a list of lines')
        s = p.at(j)
        if s.count('\n') != 1 or not s.endswith('\n'):
            raise Unsupported('lines of a loop')
        return s

    def rest(self, k):
        """the lines from number k on, as (part, first line) pairs"""
        p, j = self.find(k)
        return self.parts[self.parts.index(p):] if p is not None else [], j


class In:
    """file opened for reading"""

    def __init__(self, content):
        self.c = content
        self.used = DvList()      # one element for each line read
        self.base = 0
        self.closed = False

    @property
    def pos(self):
        return self.base + self.used._len0()

    def read_line(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        frames = getattr(CTX(), 'frames', None) or []
        if len(frames) > self.used._dep:
            # one line in each iteration of a loop
            f = frames[-1]
            if self.used._guard().lists.get(id(self.used), (0, []))[1]:
                raise Unsupported('several lines read in an iteration')
            loop = f.loop
            k = self.pos + loop.dom.index(loop.ks)
        else:
            k = self.pos
        s = self.c.line(k)
        if s:
            self.used.append(1)
        return s

    def __next__(self):
        s = self.read_line()
        if not s:
            raise StopIteration
        return s

    def __iter__(self):
        return self

    def readline(self):
        return self.read_line()

    def readlines(self):
        out = DvList()
        while True:
            s = self.read_line()
            if not s:
                return out
            out.append(s)

    def tell(self):
        return self.pos

    def seek(self, p):
        self.base, self.used = p, DvList()

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


class Table:
    """structured array: named columns of one shape"""

    def __init__(self, cols, dtype=None):
        self.cols = dict(cols)
        self.dtype = dtype

    @property
    def shape(self):
        return next(iter(self.cols.values())).shape

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise ValueError(f'no field of name {k}')
            return self.cols[k]
        if isinstance(k, list):
            return Table({x: self.cols[x] for x in k}, self.dtype)
        raise Unsupported('index of a structured array')

    def reshape(self, *shape):
        return Table({k: v.reshape(*shape) for k, v in self.cols.items()}, self.dtype)

    def __len__(self):
        return len(next(iter(self.cols.values())))


def unstructured(t):
    """structured_to_unstructured: the fields along a new last axis"""
    cols = list(t.cols.values())
    kinds = {c.d_ for c in cols}
    d = 'f' if 'f' in kinds else 'i'
    s = [c.snap() for c in cols]

    def at(i):
        j = i[-1]
        if isinstance(j, int):
            return s[j].get(i[:-1])
        out = s[-1].get(i[:-1])
        for k in range(len(s) - 2, -1, -1):
            out = ite(mk(j == k), s[k].get(i[:-1]), out)
        return out
    return SArr.fn((*cols[0].shape, len(cols)), at, d)


class Path:
    """stand-in of pathlib.Path in the contracts of loaders and writers"""

    def __init__(self, name, files=None, exists=True):
        self.name, self.files, self.there = name, files if files is not None else {}, exists

    def __truediv__(self, o):
        return Path(f'{self.name}/{getattr(o, "name", o)}' if self.name else str(getattr(o, 'name', o)), self.files, self.there)

    def __str__(self):
        return self.name

    __fspath__ = __str__

    @property
    def suffix(self):
        return '.' + self.name.rsplit('.', 1)[1] if '.' in self.name else ''

    def with_suffix(self, s):
        return Path(self.name.rsplit('.', 1)[0] + s, self.files, self.there)

    def is_file(self):
        return self.name in self.files

    exists = is_file


def number_column(lines, col, kind, comments=None, delimiter=None):
    """column of a text table as numpy reads it; lines is a sequence"""
    tx = T.TEXT

    def at(i):
        s = lines.at(i[0])
        if comments and s.startswith(comments):
            raise Unsupported('comment among the data')
        f = s.split(delimiter)
        if col >= len(f):
            raise ValueError('too few columns')
        v = tx.number(f[col])
        if v is None:
            w = f[col].strip()
            v = int(w) if re.fullmatch(r'-?\d+', w) else SReal.const(__import__('fractions').Fraction(w))
        if kind in 'iu' and isinstance(v, SReal):
            raise ValueError(f'could not convert {s!r} to an integer')
        return SReal.of(v) if kind == 'f' else v
    return SArr.fn((lines.n,), at, 'f' if kind == 'f' else 'i')


def loadtxt(files):
    """contract of numpy.loadtxt on a file or file name"""
    def f(fname, dtype=float, comments='#', delimiter=None, skiprows=0, usecols=None, **k):
        if k:
            raise Unsupported(f'loadtxt {sorted(k)}')
        if isinstance(fname, In):
            src, pos = fname, fname.pos
            content = src.c
        else:
            content, pos = files[str(fname)], 0
        c = CTX()
        k0 = pos + skiprows
        # the lines left: comments are skipped, the data is one sequence
        p, j = content.find(k0)
        while isinstance(p, list):
            if not isinstance(j, int):
                raise Unsupported('position in the header')
            i0 = content.parts.index(p)
            for s in p[j:]:
                if not (comments and s.startswith(comments)) and s.strip():
                    raise ValueError(f'could not convert {s!r}')
            if i0 + 1 == len(content.parts):
                raise Unsupported('table without data')
            p, j = content.parts[i0 + 1], 0
        if p is None:
            raise Unsupported('table without data')
        c.prove('the table is read from its first line on', mk(j == 0))
        if content.parts[-1] is not p:
            raise Unsupported('text after the table')
        import numpy
        names = getattr(dtype, 'names', None)
        if not names:
            ncol = len(p.at(SInt.const(0) if hasattr(SInt, 'const') else 0).split(delimiter))
            cols = [number_column(p, i, 'f', comments, delimiter) for i in (range(ncol) if usecols is None else usecols)]
            t = Table({str(i): v for i, v in enumerate(cols)})
            return unstructured(t)
        use = list(range(len(names))) if usecols is None else list(usecols)
        if len(use) != len(names):
            raise ValueError('number of columns and fields')
        return Table({n: number_column(p, u, numpy.dtype(dtype[n]).kind, comments, delimiter) for n, u in zip(names, use)}, dtype)
    return f
