"""Files of any number of lines and folders of any number of files.

A loop over the lines is cut: *step* mode runs the body once for an arbitrary
line from an arbitrary state that satisfies the loop invariant and checks what
the iteration did and that the invariant holds again; *exit* mode continues
after the loop from an arbitrary state that satisfies it.  Invariants of
integer variables are found among  v = v0 + g  for the ghost counters g below
(0, lines seen, records accepted, records matched); any other variable that is
assigned in the body before it is read needs none."""
import sys

import rt
import sym
from sym import SymStr, Piece, LinInt, Unsupported, CutPath, isinstance_t, chars_of


class LineTok(SymStr):
    """an arbitrary line of the file; surrounding whitespace may be removed
    (reading does not depend on it: property C04)"""
    __slots__ = ()

    def strip(self, chars=None):
        if chars is not None and not (type(chars) is str and chars.isspace()):
            raise Unsupported('strip of a line with characters')
        return Trimmed(self.c)
    lstrip = rstrip = strip

    def __bool__(self):
        return True

    def __eq__(self, o):
        return False if type(o) is str and not o else SymStr.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def key(self):
        return self.c[0].key


class Trimmed(LineTok):
    """the same without (some of) its surrounding whitespace: possibly empty"""
    __slots__ = ()
    __bool__ = SymStr.__bool__

    def __eq__(self, o):
        return not self if type(o) is str and not o else SymStr.__eq__(self, o)

    def isspace(self):
        raise Unsupported('isspace of a line')


class Poison:
    """a variable whose value at the loop head is unknown"""

    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _u(self, *a, **k):
        raise Unsupported('loop-carried variable without an invariant')
    __getattr__ = __setattr__ = __bool__ = __eq__ = __ne__ = __iter__ = __len__ = __call__ = __getitem__ = _u
    __add__ = __radd__ = __iadd__ = __sub__ = __lt__ = __gt__ = __le__ = __ge__ = __str__ = __format__ = _u
    __contains__ = __enter__ = __hash__ = __repr__ = __index__ = _u


def freeze(v, d=0):
    if d > 3:
        return id(v)
    if type(v) in (list, tuple):
        return (type(v).__name__, tuple(freeze(x, d + 1) for x in v))
    if type(v) is dict:
        return ('dict', tuple((freeze(k, d + 1), freeze(x, d + 1)) for k, x in v.items()))
    if type(v) is set:
        return ('set', tuple(sorted(id(x) for x in v)))
    if isinstance_t(v, (SymStr,)):
        return ('sym', sym.norm_key(v.c))
    if isinstance_t(v, (rt.SymStringIO,)):
        return ('io', tuple(freeze(x) for x in v.parts))
    if (type(v).__module__ or '').startswith('arinc424') and hasattr(v, '__dict__'):
        return ('obj', id(v), tuple((k, freeze(x, d + 1)) for k, x in sorted(vars(v).items())))
    if type(v) in (str, int, bool, float, type(None)):
        return v
    return id(v)


class Loops:
    """the active loop over an unbounded sequence (rt.LOOP): the loop itself
    and, when it runs in a generator, the loops that consume what it yields"""

    def __init__(self, job):
        self.job = job
        self.mode = None
        self.hv = {}
        self.levels = []
        self.whiles = {}
        self.visited = set()
        self.last = {}

    def head(self, site, loc):
        if self.mode != 'step' or site not in self.hv:
            return {}
        self.visited.add(site)
        return self.hv[site]

    def exit(self, site, loc):
        if site in self.hv:
            if self.mode == 'exit':
                return dict(self.hv[site], **self.last[site])
            if self.mode == 'step':
                self.mode = 'left'        # break
        return {}

    def enter(self, levels, index=None):
        """cut: forget what the loops carry, except for the candidate
        invariants.  levels: (site, locals, names, targets, frame)"""
        job, ctx = self.job, sym.CTX
        if job.used:
            raise Unsupported('a second loop over the lines')
        job.used = True
        self.levels = []
        for site, loc, names, targets, frame in levels:
            entry = dict(loc)
            carried = [n for n in names if n in entry and n not in targets]
            hv, inv = {}, {}
            for n in carried:
                v = entry[n]
                if type(v) is int or type(v) is bool:
                    c = job.candidate(site, n)
                    inv[n] = (c, int(v))
                    hv[n] = Poison(n) if c is None else v if c == 'const' else LinInt(c, int(v))
                elif type(v) is list and not v:
                    c = job.candidate(site, n)
                    inv[n] = (c, 0)
                    hv[n] = Poison(n) if c is None else Grown(c)
                elif v is job.first and v is not None:
                    hv[n] = NEXT
                else:
                    hv[n] = Poison(n)
            for k, v in entry.items():
                if (site, k, 'havoc') in job.inv and k not in carried:
                    forget(v)
            self.hv[site] = hv
            self.last[site] = {}
            for n in targets:        # the last element, after the loop
                self.last[site][n] = Poison(n)
            if index is not None and frame is levels[-1][4] and targets and type(entry.get(targets[0])) is int \
                    and entry[targets[0]] == index[0] - 1 and index[1] is not None:
                self.last[site][targets[0]] = LinInt(index[1], index[0] - 1)
            frozen = {k: freeze(v) for k, v in entry.items() if k not in carried and k not in targets
                      and (site, k, 'havoc') not in job.inv}
            self.levels.append((site, frame, inv, frozen))
        job.before = [e for e in ctx.events]
        self.mode = 'step' if ctx.decide(2) == 0 else 'exit'
        if self.mode == 'step':
            job.n0 = len(ctx.events)
            job.cur = job.make()
        for hv in self.hv.values():
            for n, v in hv.items():
                if v is NEXT:
                    hv[n] = job.cur if self.mode == 'step' else ''
                    job.ahead = True

    def end(self):
        """the end of the body, in step mode"""
        job = self.job
        for site, frame, inv, frozen in self.levels:
            end = dict(frame.f_locals)
            if site not in self.visited:       # nothing was yielded to this loop
                end.update(self.hv[site])
            for k, v in frozen.items():
                if freeze(end.get(k)) != v:
                    if v[:1] == ('obj',) if type(v) is tuple else False:
                        job.kill(site, k, 'havoc')
                    raise Unsupported('the loop changes %r, which has no invariant' % k)
            for n, (c, v0) in inv.items():
                if c is not None and not same(end[n].n if isinstance_t(end[n], (Grown,)) else end[n], c, v0, job.delta(c) if c != 'const' else 0):
                    job.kill(site, n, c)
            if job.ahead:
                for n, v in self.hv[site].items():
                    if v is job.cur and end[n] is not job.next:
                        raise Unsupported('a loop that does not read one line at a time')
        for f in job.at_end:
            f()
        job.step_done()
        raise CutPath()

    # while loops that read one line at a time
    def while_head(self, site, loc, names, frame, reads):
        k = (site, id(frame))
        if k not in self.whiles:
            if self.job.used or not (reads == 'readline' or reads and self.job.source):
                return {}
            self.whiles[k] = frame
            self.job.make = self.job.source or self.job.make_line
            self.enter(consumers(frame, [(site, loc, names, (), frame)]))
            self.visited.add(site)
            return self.hv[site]
        if self.mode == 'step':
            if not self.job.taken and not self.job.ahead:
                raise Unsupported('a loop that reads no line')
            self.end()
        if self.mode == 'exit':
            raise Unsupported('a loop that goes on after the last line')
        return {}


class Grown(rt.Model):
    """a list of which only the length matters"""

    def __init__(self, c):
        self.n = 0 if c == 'const' else LinInt(c, 0)

    def append(self, x):
        self.n = self.n + 1

    def symlen(self):
        return self.n

    def __len__(self):
        raise Unsupported('len of a list')

    def __bool__(self):
        return bool(self.n > 0)

    def __iter__(self):
        raise Unsupported('the elements of a list')

    def text(self):
        raise Unsupported('text of a list')


NEXT = object()


def forget(v):
    for k in list(vars(v)):
        vars(v)[k] = Poison(k)


def consumers(frame, levels):
    """the loops that consume the generator that runs in this frame"""
    while frame.f_code.co_flags & 0x20:
        b = frame.f_back
        if b is not None and b.f_code is Picked.loop.__code__:
            frame = b.f_back
            l = b.f_locals
            levels = levels + [(l['site'], l['loc'], l['names'], l['targets'], frame)]
            continue
        if b is None or b.f_code is not drive.__code__ or b.f_locals['it'].gi_frame is not frame:
            raise Unsupported('lines of a generator that is not consumed by a for loop')
        frame = b.f_locals['frame']
        levels = levels + [(b.f_locals['site'], b.f_locals['loc'], b.f_locals['names'], b.f_locals['targets'], frame)]
    return levels


def drive(it, site, loc, names, targets, frame):
    for x in it:
        yield x


class Unbounded(rt.SymLines):
    anyorder = False

    def __init__(self, job, make):
        self.job = job
        self.make = make

    def __iter__(self):
        raise Unsupported('iteration over an unbounded sequence outside a for loop')

    def __len__(self):
        raise Unsupported('len of an unbounded sequence')

    def symlen(self):
        self.job.source = self.make
        return LinInt('total', 0)

    def __bool__(self):
        return bool(self.symlen() > 0)

    def __getitem__(self, i):
        raise Unsupported('part of an unbounded sequence')

    def at(self, i):
        if i.base == 'seen' and i.off == 0 and self.job.loops.mode == 'step' and self.job.cur is not None:
            self.job.taken = True
            return self.job.cur
        raise Unsupported('a line by its number')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s of an unbounded sequence' % n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def copy(self):
        return self

    def sort(self, **k):
        if not self.anyorder:      # nothing is promised about the order
            raise Unsupported('sorting of lines')

    reverse = sort

    def eager(self):
        return self

    def text(self):
        raise Unsupported('text of an unbounded sequence')

    def loop(self, site, loc, names, targets, wrap=None, index=None):
        job = self.job
        L = job.loops
        frame = sys._getframe().f_back
        job.make = self.make
        L.enter(consumers(frame, [(site, loc, names, targets, frame)]), index or job.index)
        if L.mode == 'step':
            yield job.cur if wrap is None else wrap(job.cur)
            L.end()


class Folder(Unbounded):
    """the files of a folder, in no particular order"""
    anyorder = True


class Range(Unbounded):
    """range(number of lines)"""

    def loop(self, site, loc, names, targets):
        return Unbounded.loop(self, site, loc, names, targets, lambda x: LinInt('seen', 0))


class Pairs(Unbounded):
    """enumerate(lines, start)"""

    def __init__(self, lines, start):
        Unbounded.__init__(self, lines.job, lines.make)
        self.lines, self.start = lines, start

    def loop(self, site, loc, names, targets):
        if not isinstance_t(self.lines, (Picked,)):
            return Unbounded.loop(self, site, loc, names, targets, lambda x: (LinInt('seen', self.start), x),
                                  (self.start, 'seen'))
        c = self.lines.counter()
        self.job.index = (self.start, c if c != 'const' else None)
        return self.lines.loop(site, loc, names, targets, lambda x: (
            Poison('number') if c is None else self.start if c == 'const' else LinInt(c, self.start), x))


class Picked(Unbounded):
    """[f(x) for x in lines if ...]: made of elements that are computed without
    output and without an exception, so that computing them one by one in the
    loop that uses them makes no difference"""

    def __init__(self, src, site, make, pure):
        Unbounded.__init__(self, src.job, src.make)
        self.src, self.site, self.pick, self.pure = src, site, make, pure
        self.anyorder = getattr(src, 'anyorder', False)
        self.n = 0
        if pure:
            self.counter()

    def eager(self):
        self.pure = True
        self.counter()
        return self

    def symlen(self):
        if not self.pure:
            raise TypeError("object of type 'generator' has no len()")
        c = self.counter()
        if c is None:
            raise Unsupported('the number of elements of a list')
        return 0 if c == 'const' else LinInt(c, 0)

    def counter(self):
        c = self.job.candidate(self.site, 'len')
        if not self.counted:
            self.job.at_end.append(lambda: self.count(c))
            self.counted = True
        return c

    counted = False

    def count(self, c):
        if c is not None and self.n != (self.job.delta(c) if c != 'const' else 0):
            self.job.kill(self.site, 'len', c)

    def loop(self, site, loc, names, targets, wrap=None):
        ctx, it = sym.CTX, self.pick(self.src)
        if self.pure and any(k[2:] == ('havoc',) for k in self.job.inv):
            raise Unsupported('elements of a list that may share an object')
        while True:
            n = len(ctx.events)
            try:
                x = next(it)
            except StopIteration:
                return
            except Exception:
                if not self.pure:
                    raise
                raise Unsupported('an element of a list raises')
            if self.pure and len(ctx.events) != n:
                raise Unsupported('an element of a list prints')
            self.n += 1
            yield x if wrap is None else wrap(x)


def same(v, c, v0, d):
    """is the value v at the end of the body v0 + (g + d), where g is the ghost
    counter c at the head?  The claim goes to the solvers as well."""
    if c == 'const':
        good = (type(v) is int or type(v) is bool) and int(v) == v0
        if good:
            sym.smt_log([], [], '(= %s %s)' % (sym.lit(int(v)), sym.lit(v0)))
        return good
    if isinstance_t(v, (LinInt,)) and v.base == c and v.off == v0 + d:
        g = sym.smt_name(c)
        sym.smt_log(['(declare-const %s Int)' % g], ['(>= %s 0)' % g],
                    '(= (+ %s %s) (+ %s (+ %s %d)))' % (g, sym.lit(v.off), sym.lit(v0), g, d))
        return True
    return False


class Blob(rt.Model):
    """the contents of the file"""

    def __init__(self, job):
        self.job = job

    def split(self, sep=None, maxsplit=-1):
        if sep != '\n' or maxsplit != -1:
            raise Unsupported('split of a file')
        self.job.source = self.job.make_trimmed
        return Unbounded(self.job, self.job.make_trimmed)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s of the contents of a file' % n)

    def __iter__(self):
        raise Unsupported('characters of a file')

    def text(self):
        raise Unsupported('text of a file')


class FileModel(rt.Model):
    anyorder = False

    def __init__(self, job):
        self.job = job

    def readlines(self, *a):
        if a:
            raise Unsupported('readlines with a hint')
        self.job.source = self.job.make_line
        return Unbounded(self.job, self.job.make_line)

    def readline(self, *a):
        j = self.job
        if a:
            raise Unsupported('readline with a limit')
        mode = j.loops.mode
        if mode is None:
            if j.first is not None:
                raise Unsupported('two lines before the loop')
            j.first = Poison('first line')
            j.source = j.make_line
            return j.first
        if mode == 'step':
            if j.ahead:
                if j.next is not None:
                    raise Unsupported('two lines in one iteration')
                j.next = Poison('next line')
                return j.next
            if j.taken or j.cur is None:
                raise Unsupported('two lines in one iteration')
            j.taken = True
            return j.cur
        if mode == 'exit':
            return ''
        raise Unsupported('readline after the loop')

    def read(self, *a):
        if a and a != (-1,):
            raise Unsupported('read with a limit')
        return Blob(self.job)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def text(self):
        raise Unsupported('text of a file')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('file.%s' % n)

    def __iter__(self):
        raise Unsupported('iteration over a file outside a for loop')


class FileLoop(FileModel, rt.SymLines):
    """a file is also its own sequence of lines"""

    @property
    def make(self):
        return self.job.make_line

    def eager(self):
        return self.readlines()

    def symlen(self):
        raise TypeError('object of type _io.TextIOWrapper has no len()')

    def loop(self, site, loc, names, targets):
        return Unbounded(self.job, self.job.make_line).loop(site, loc, names, targets)


class Entry(rt.Model):
    def __init__(self, job, n):
        self.job = job
        self.name = SymStr((Piece('filename', n),))
        self.path = SymStr((Piece('join', FOLDER, n),))

    def is_file(self, *, follow_symlinks=True):
        return isfile(self.path) and (follow_symlinks is True or not self.is_symlink())

    def is_dir(self, *, follow_symlinks=True):
        return isdir(self.path) and (follow_symlinks is True or not self.is_symlink())

    def is_symlink(self):
        return sym.CTX.predicate(('symlink', path_key(self.path)))

    def __fspath__(self):
        return self.path

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('DirEntry.%s' % n)

    def text(self):
        raise Unsupported('text of a DirEntry')


FOLDER = ('s', ('P', 'input', 'folder'))
FILE = ('s', ('P', 'input', 'file'))


def isfile(p):
    """an entry of the folder is a file or a folder (or a link to one)"""
    k = path_key(p)
    return k != FOLDER and (k[0] != 'file' or sym.CTX.predicate(('regular file', k)))


def isdir(p):
    k = path_key(p)
    return k == FOLDER or k[0] == 'file' and not isfile(p)


def path_key(p):
    """what file or folder a path names"""
    if isinstance_t(p, (PathModel, Entry)):
        p = p.path
    if not isinstance(p, str):
        raise Unsupported('a path of type %s' % type(p).__name__)
    c = chars_of(p)
    if len(c) == 1 and type(c[0]) is Piece and c[0].key[0] == 'join':
        return ('file', c[0].key[1], c[0].key[2])
    i = len(c)
    if i > 2 and type(c[-1]) is Piece and c[-1].key[0] == 'filename':
        j = i - 1
        while j > 1 and c[j - 1] == '/':
            j -= 1
        if j < i - 1:
            return ('file', rt.deep_key(sym.mk(c[:j])), c[-1].key[1])
    while i > 1 and c[i - 1] == '/':
        i -= 1
    return rt.deep_key(sym.mk(c[:i]))


class PathModel(rt.Model):
    """pathlib.Path of the file or folder given to the library"""

    def __init__(self, p):
        self.path = p.path if isinstance_t(p, (PathModel, Entry)) else p
        if not isinstance(self.path, str):
            raise TypeError('argument should be a str or an os.PathLike object')
        path_key(self.path)

    def __truediv__(self, o):
        return PathModel(rt.FILES.join(self.path, o))
    def joinpath(self, *o): return PathModel(rt.FILES.join(self.path, *o))
    def open(self, mode='r', *a, **k): return rt.FILES.open(self.path, mode, *a, **k)
    def read_text(self, *a, **k): return rt.FILES.open(self.path, 'r', **k).read() if not a else self._un()
    def iterdir(self):
        rt.FILES.check(self.path)
        return Folder(rt.FILES.job, lambda: PathModel(Entry(rt.FILES.job, rt.FILES.job.fresh())))
    def glob(self, pat):
        if pat != '*':
            raise Unsupported('glob')
        return self.iterdir()
    def is_file(self): return isfile(self.path)
    def is_dir(self): return isdir(self.path)
    def exists(self): return rt.FILES.exists(self.path)
    def __fspath__(self): return self.path
    def text(self): return self.path
    def modelkey(self): return ('path', path_key(self.path))

    @property
    def name(self):
        k = path_key(self.path)
        if k[0] != 'file':
            self._un()
        return SymStr((Piece('filename', k[2]),))

    def _un(self, *a):
        raise Unsupported('a pathlib operation')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('Path.%s' % n)


class FS:
    """rt.FILES"""

    def __init__(self, job):
        self.job = job

    def open(self, path, mode='r', *a, **k):
        if a or any(v is not None for v in k.values()):
            raise Unsupported('open with options')
        if mode not in ('r', 'rt') or is_concrete(path):
            raise Unsupported('open(%r, %r)' % (path if type(path) is str else '..', mode))
        if path_key(path) != FILE:
            raise Unsupported('open of another file')
        return FileLoop(self.job)

    def scandir(self, path='.'):
        self.check(path)
        return Folder(self.job, lambda: Entry(self.job, self.job.fresh()))

    def listdir(self, path='.'):
        self.check(path)
        return Folder(self.job, lambda: Entry(self.job, self.job.fresh()).name)

    def check(self, path):
        if is_concrete(path) or path_key(path) != FOLDER:
            raise Unsupported('another folder')

    def isfile(self, path):
        return isfile(path)

    def isdir(self, path):
        return isdir(path)

    def exists(self, path):
        path_key(path)
        return True

    def fspath(self, path):
        return path.path if isinstance_t(path, (PathModel, Entry)) else path

    def join(self, a, *b):
        a = self.fspath(a)
        b = [self.fspath(x) for x in b]
        if len(b) == 1 and isinstance_t(b[0], (SymStr,)) and len(b[0].c) == 1 and type(b[0].c[0]) is Piece \
                and b[0].c[0].key[0] == 'filename':
            return SymStr((Piece('join', path_key(a), b[0].c[0].key[1]),))
        raise Unsupported('os.path.join')


def is_concrete(x):
    return type(x) is str


class Job:
    def __init__(self, env, phase, inv):
        self.env = env
        self.phase = phase
        self.inv = inv
        self.used = False
        self.loops = Loops(self)
        self.cur = None
        self.n0 = 0
        self.killed = []
        self.check = None
        self.deltas = {}
        self.k = 0
        self.first = self.next = self.source = self.make = None
        self.ahead = self.taken = False
        self.at_end = []
        self.index = None

    def candidate(self, site, n):
        """one of the candidate invariants of an integer (search), or the one found"""
        alive = self.inv.setdefault((site, n), ['const', 'matched', 'accepted', 'seen'])
        k = ('candidate', site, n)
        if self.phase == 'search' and alive:
            u = sym.CTX.uninterp
            if k not in u:
                u[k] = sym.CTX.decide(len(alive))
            return alive[u[k]]
        return alive[0] if alive else None

    def fresh(self):
        self.k += 1
        return self.k

    def make_line(self):
        return LineTok((Piece('line', self.fresh()),))

    def make_trimmed(self):
        return Trimmed((Piece('line', self.fresh()),))

    def delta(self, c):
        if c == 'seen':
            return 1
        return self.deltas[c]()

    def kill(self, site, n, c):
        if self.phase != 'search':
            self.env.fail('loop invariant of %s' % n, c)
        self.killed.append((site, n, c))

    def step_done(self):
        if self.phase == 'search':
            return
        if self.check is not None:
            self.check()

    def left_early(self):
        return self.loops.mode in ('left', 'step')


class Texts(rt.Model):
    """a list of any number of texts (the filters of a search).

    A loop over it gets elements that are contained in the text of the record
    at hand or are not, in any order and number, until the state of the loop is
    one that it had before: what follows then has been looked at from there.
    Other uses of the list are outside the model."""

    def __init__(self, job, rawof):
        self.job, self.rawof = job, rawof
        self.marks = []

    def listed(self, one):
        """[.. for x in self if ..]: whether it has an element"""
        k = len(self.marks)
        self.marks.append(False)
        for x in one(self):
            self.marks[k] = True
        return SomeTexts(self.marks.pop())

    @property
    def __class__(self):
        return list

    def modelkey(self):
        return ('any', 'filters')

    def text(self):
        return SymStr((Piece('repr', self.modelkey()),))

    def _no(self, *a, **k):
        raise Unsupported('this use of a list of any length')
    __iter__ = __len__ = __getitem__ = __contains__ = __add__ = __eq__ = __lt__ = _no
    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s of a list of any length' % n)

    def copy(self):
        return self

    def __bool__(self):
        u = sym.CTX.uninterp
        if ('filters empty',) not in u and any(k[0] == 'all filters' and not v for k, v in u.items()):
            return True
        return not sym.CTX.predicate(('filters empty',))

    def all_in(self):
        """is every text of the list contained in the text of the record?"""
        if sym.CTX.uninterp.get(('filters empty',)):
            return True
        return sym.CTX.predicate(('all filters', self.job.cur.key()))

    def walk(self):
        ctx = sym.CTX
        if self.job.cur is None:
            raise Unsupported('filters without a record')
        if ctx.uninterp.get(('filters empty',)):
            return
        raw = self.rawof(self.job.cur)
        first, out = not ctx.uninterp.get(('filters empty',), True), False
        seen = []
        for n in range(8):
            a = self.all_in()
            opts = [k for k, ok in (('end', (a or out) and not first), ('in', True), ('out', not a)) if ok]
            k = opts[ctx.decide(len(opts)) if len(opts) > 1 else 0]
            if k == 'end':
                return
            seen.append((first, out, visible(sys._getframe().f_back), list(self.marks)))
            first = False
            x = SymStr((Piece('filter', k, n),))
            ctx.uninterp[('contains', sym.norm_key(raw.c), sym.norm_key(x.c))] = k == 'in'
            out = out or k == 'out'
            yield x
            if (first, out, visible(sys._getframe().f_back), list(self.marks)) in seen:
                raise CutPath('more such elements make no difference')
        raise Unsupported('a loop over the filters that keeps changing its state')


class SomeTexts(rt.Model):
    """a list made of such a list: empty or not"""

    def __init__(self, some):
        self.some = some

    @property
    def __class__(self):
        return list

    def symlen(self):
        if self.some:
            raise Unsupported('the number of elements of a list of any length')
        return 0

    def __bool__(self):
        return self.some

    def __eq__(self, o):
        if type(o) is list and not o:
            return not self.some
        raise Unsupported('this use of a list of any length')

    __hash__ = None

    def _no(self, *a, **k):
        raise Unsupported('this use of a list of any length')
    __iter__ = __len__ = __getitem__ = __contains__ = __add__ = _no

    def text(self):
        raise Unsupported('text of a list of any length')


class TextsGen(rt.Model):
    """elements made one by one of such a list"""

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        raise Unsupported('this use of a list of any length')

    def text(self):
        raise Unsupported('text of a generator')


def visible(frame):
    """what the code under test has in its variables"""
    out = [len(sym.CTX.events)]
    while frame is not None:
        if str(frame.f_globals.get('__name__', '')).startswith('arinc424'):
            out.append((frame.f_code, tuple(sorted((k, frozen(v)) for k, v in frame.f_locals.items()
                                                   if not k.startswith('.')))))
        frame = frame.f_back
    return out


def frozen(v, d=4):
    if isinstance_t(v, (SymStr,)):
        return repr(tuple(('filter', c.key[1]) if type(c) is Piece and c.key[0] == 'filter' else sym.norm_key((c,)) for c in v.c))
    if v is None or type(v) in (str, int, float, bool):
        return repr(v)
    if d == 0:
        return 'deep'
    if type(v) in (list, tuple):
        return repr([frozen(x, d - 1) for x in v])
    if isinstance(v, dict) and not isinstance_t(v, (rt.Model,)):
        return repr([(repr(k), frozen(x, d - 1)) for k, x in v.items()])
    if isinstance_t(v, (LinInt,)):
        return 'int %s %d' % (v.base, v.off)
    if hasattr(type(v), '__module__') and str(type(v).__module__).startswith('arinc424'):
        return repr([(k, frozen(x, d - 1)) for k, x in sorted(vars(v).items())]) if hasattr(v, '__dict__') else 'obj'
    return '%s %d' % (type(v).__name__, id(v))
