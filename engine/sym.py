"""Symbolic values and the path context.

A path is a box: every character variable carries an exact set of possible
characters (charset.py), narrowed by the branches taken.  A predicate on a
symbolic value forks the path and returns a real bool, so the code under
verification runs on CPython's own control flow.  A branch whose other side
is impossible is *forced*; each forced branch is a verification condition
"path constraints |- literal" that is logged and discharged by z3 (vc.py).
"""
from charset import Charset


class EngineStop(BaseException):
    """never caught by the code under verification"""


class Unsupported(EngineStop):
    """a construct the verifier does not model: the path is left undecided"""


class Infeasible(EngineStop):
    pass


class CutPath(EngineStop):
    """the path ends here by design (end of an inductive loop step)"""


class Budget(EngineStop):
    pass


CS = None      # the Charset of this run
CTX = None     # the current path context


def set_charset(cs):
    global CS
    CS = cs


def set_ctx(c):
    global CTX
    CTX = c


class V:
    """one symbolic character: a variable, or a character map of a variable"""
    __slots__ = ('var', 'map')

    def __init__(self, var, map=None):
        self.var = var
        self.map = map

    def key(self):
        return (self.var, self.map)


class Piece:
    """an opaque part of a text: equal to another Piece iff the keys are equal
    (functional abstraction); unequal keys say nothing."""
    __slots__ = ('key',)

    def __init__(self, *key):
        self.key = key

    def __repr__(self):
        return 'Piece%r' % (self.key,)


class Frame:
    __slots__ = ('prefix', 'trail', 'pending')

    def __init__(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.pending = []


class Ctx:
    def __init__(self, prefix=()):
        self.frames = [Frame(list(prefix))]
        self.box = {}
        self.hist = {}
        self.names = {}
        self.rels = []
        self.approx = []
        self.memo = []
        self.side = {}          # id(dict) -> [(dict, key, value)]
        self.uninterp = {}      # uninterpreted predicates already decided
        self.ints = {}          # base -> [lo, hi]
        self.events = []
        self.inputs = {}
        self.steps = 0
        self.nv = 0
        self.defaulted = set()
        self.labels = []

    # -- variables
    def newvar(self, mask=None):
        v = self.nv
        self.nv += 1
        self.box[v] = CS.ALL if mask is None else mask
        self.hist[v] = () if mask is None else (mask,)
        return v

    # -- decisions
    def decide(self, n):
        if n == 1:
            return 0
        f = self.frames[-1]
        p = len(f.trail)
        if p < len(f.prefix):
            i = f.prefix[p]
        else:
            i = 0
            for j in range(n - 1, 0, -1):
                f.pending.append(f.trail + [j])
        f.trail.append(i)
        return i

    def restrict(self, v, mask):
        self.box[v] &= mask
        self.hist[v] = self.hist[v] + (mask,)

    def test(self, v, mask):
        """is variable v in mask?  forks."""
        m = self.box[v]
        inn = m & mask
        if inn == m:
            self.log(v, mask)
            return True
        if not inn:
            self.log(v, CS.ALL & ~mask)
            return False
        if self.decide(2) == 0:
            self.restrict(v, mask)
            return True
        self.restrict(v, CS.ALL & ~mask)
        return False

    def log(self, v, mask):
        VCLOG.setdefault((self.hist[v], mask), 0)
        VCLOG[(self.hist[v], mask)] += 1

    def nondet(self, n, why):
        """over-approximation: any of n outcomes"""
        i = self.decide(n)
        self.approx.append(why)
        return i

    def predicate(self, key):
        """uninterpreted predicate: one consistent answer per path"""
        if key in self.uninterp:
            return self.uninterp[key]
        b = self.decide(2) == 0
        self.uninterp[key] = b
        return b

    # -- state for nested exploration
    def save(self):
        return (dict(self.box), dict(self.hist), list(self.rels), list(self.approx),
                {k: list(v) for k, v in self.side.items()}, dict(self.uninterp),
                {k: list(v) for k, v in self.ints.items()}, list(self.events), self.nv)

    def restore(self, s):
        (self.box, self.hist, self.rels, self.approx, self.side, self.uninterp,
         self.ints, self.events, self.nv) = (
            dict(s[0]), dict(s[1]), list(s[2]), list(s[3]),
            {k: list(v) for k, v in s[4].items()}, dict(s[5]),
            {k: list(v) for k, v in s[6].items()}, list(s[7]), s[8])


VCLOG = {}
SMTLOG = {}         # (declarations, premises, claim) of integer and text obligations -> count


def smt_log(decls, premises, claim):
    k = (tuple(sorted(decls)), tuple(premises), claim)
    SMTLOG[k] = SMTLOG.get(k, 0) + 1


def smt_name(key):
    return '|%s|' % repr(key).replace('|', '!').replace('\\', '/')


def smt_text(chars, decls):
    """a text as a term of the theory of strings; opaque pieces are constants"""
    parts = []
    for c in chars:
        if type(c) is str:
            n = ord(c)
            parts.append('"%s"' % (c if 32 <= n < 127 and c not in '"\\' else '\\u{%x}' % n))
        else:
            n = smt_name(norm_key((c,)))
            decls.add('(declare-const %s String)' % n)
            parts.append(n)
    if not parts:
        return '""'
    return parts[0] if len(parts) == 1 else '(str.++ %s)' % ' '.join(parts)


def forall_paths(closure, on_path=None, save_heap=None, limit=20000):
    """run closure on every path below the current one, in isolation; the
    state of the current path is restored afterwards.  Returns the number of
    sub-paths."""
    ctx = CTX
    st = ctx.save()
    heap = save_heap() if save_heap else None
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        ctx.restore(st)
        if heap:
            heap()
        f = Frame(prefix)
        ctx.frames.append(f)
        ctx.steps = 0
        try:
            closure()
        except Infeasible:
            pass
        finally:
            ctx.frames.pop()
        stack.extend(f.pending)
        n += 1
        if n > limit:
            raise Unsupported('more than %d sub-paths' % limit)
    ctx.restore(st)
    if heap:
        heap()
    return n


# ---------------------------------------------------------------- characters
def ch_test(c, mask):
    """c: concrete char or V"""
    if type(c) is str:
        s = CS.single(c)
        if s is None:
            raise Unsupported('character %r outside the alphabet' % c)
        return bool(s & mask)
    if c.map is None:
        return CTX.test(c.var, mask)
    return CTX.test(c.var, CS.preimage(c.map, mask) |
                    0)


def ch_mask(c):
    """current possible characters of c (after its map)"""
    if type(c) is str:
        return CS.of(c)
    m = CTX.box[c.var]
    if c.map is None:
        return m
    out = 0
    for i in CS.members(m):
        for lo, hi in CS.ranges[i][:1]:
            out |= CS.of(CS.apply(c.map, chr(lo)))
    return out


def ch_eq(a, b):
    if type(a) is str:
        if type(b) is str:
            return a == b
        a, b = b, a
    if type(b) is str:
        s = CS.single(b)
        if s is None:
            raise Unsupported('character %r outside the alphabet' % b)
        return ch_test(a, s)
    if a is b or a.key() == b.key():
        return True
    if a.var == b.var and {a.map, b.map} == {None, 'dig'}:
        return CTX.test(a.var, CS.rng(48, 57))     # a decimal that is its own ASCII form
    # two different symbolic characters
    ma, mb = ch_mask(a), ch_mask(b)
    if not ma & mb:
        return False
    if ma == mb and ma & (ma - 1) == 0 and len(CS.ranges[ma.bit_length() - 1]) == 1 \
            and CS.ranges[ma.bit_length() - 1][0][0] == CS.ranges[ma.bit_length() - 1][0][1]:
        return True
    if a.map or b.map:
        # decide by enumerating the mapped values of the first one
        c = ch_concretise(a)
        return ch_eq(c, b)
    k = ('cheq',) + tuple(sorted((a.var, b.var)))
    if k in CTX.uninterp:
        return CTX.uninterp[k]
    r = CTX.decide(2) == 0
    CTX.uninterp[k] = r
    CTX.rels.append((a.var, b.var, r))
    if r:
        CTX.restrict(a.var, mb)
        CTX.restrict(b.var, ma)
    return r


def ch_concretise(c):
    """fork over every value of a small set"""
    if type(c) is str:
        return c
    m = ch_mask(c)
    ms = list(CS.members(m))
    if len(ms) > 64 or any(CS.ranges[i][0][0] != CS.ranges[i][-1][1] for i in ms):
        raise Unsupported('concretising a character with many values')
    for i in ms:
        if ch_test(c, 1 << i):
            return CS.rep[i]
    raise Infeasible()


# ---------------------------------------------------------------- strings
_MISSING = object()


def is_sym(x):
    return isinstance_t(x, (SymStr, SymNum, Lazy, OpaqueNum, LinInt, SymOrd))


def isinstance_t(x, ts):
    t = type(x)
    for k in ts:
        if t is k or k in t.__mro__:
            return True
    return False


def chars_of(x):
    if type(x) is str:
        return tuple(x)
    if isinstance_t(x, (Lazy,)):
        x = x.force()
    return x.c


def mk(chars):
    """a str if everything is concrete, otherwise a SymStr"""
    chars = tuple(chars)
    for c in chars:
        if type(c) is not str:
            return SymStr(chars)
    return ''.join(chars)


def concat(*xs):
    out = []
    for x in xs:
        out.extend(chars_of(x))
    return mk(out)


def _is_strlike(x):
    return type(x) is str or isinstance_t(x, (SymStr, Lazy))


def s_eq(a, b):
    """equality of two strings (forks)"""
    ca, cb = chars_of(a), chars_of(b)
    opa = any(type(c) is Piece for c in ca)
    opb = any(type(c) is Piece for c in cb)
    if opa or opb:
        return opaque_eq(ca, cb)
    if len(ca) != len(cb):
        return False
    for x, y in zip(ca, cb):
        if not ch_eq(x, y):
            return False
    return True


def norm_key(chars):
    return tuple((c if type(c) is str else ('P',) + c.key if type(c) is Piece else ('V',) + c.key())
                 for c in chars)


def settled(key):
    """the key with every character that can only be one character by now written as that one"""
    if type(key) is not tuple:
        return key
    if len(key) == 3 and key[0] == 'V' and type(key[1]) is int:
        m = ch_mask(V(key[1], key[2]))
        if m and m & (m - 1) == 0:
            r = CS.ranges[m.bit_length() - 1]
            if len(r) == 1 and r[0][0] == r[0][1]:
                return chr(r[0][0])
        return key
    return tuple(settled(x) for x in key)


def same_key(a, b):
    return a == b or settled(a) == settled(b)


def opaque_eq(ca, cb):
    """structurally equal -> True; otherwise equal prefixes/suffixes are
    compared and the remainder is an uninterpreted equality"""
    ka, kb = norm_key(ca), norm_key(cb)
    if ka == kb:
        return True
    ka, kb = settled(ka), settled(kb)
    if ka == kb:
        return True
    # strip common structural prefix / suffix, then look for a definite difference
    i = 0
    while i < len(ca) and i < len(cb) and ka[i] == kb[i]:
        i += 1
    j = 0
    while j < len(ca) - i and j < len(cb) - i and ka[-1 - j] == kb[-1 - j]:
        j += 1
    ra, rb = ca[i:len(ca) - j], cb[i:len(cb) - j]
    pa = any(type(c) is Piece for c in ra)
    pb = any(type(c) is Piece for c in rb)
    if not pa and not pb:
        if len(ra) != len(rb):
            return False
        for x, y in zip(ra, rb):
            if not ch_eq(x, y):
                return False
        return True
    for end in (0, -1):
        if ra and rb and type(ra[end]) is str and type(rb[end]) is str:
            return False     # different first (last) concrete characters
    k = ('streq',) + tuple(sorted((repr(norm_key(ra)), repr(norm_key(rb)))))
    if k not in CTX.uninterp:
        CTX.approx.append('equality of opaque texts')
    return CTX.predicate(k)


class SymStr:
    """a text of concrete length whose characters may be symbolic (or which
    contains opaque pieces)"""
    __slots__ = ('c',)

    def __init__(self, chars):
        self.c = tuple(chars)

    # identity
    @property
    def __class__(self):
        return str

    def __repr__(self):
        return 'SymStr(%s)' % ''.join(c if type(c) is str else '?' if type(c) is V else '<%s>' % (c.key,) for c in self.c)

    def __hash__(self):
        raise Unsupported('hash of a symbolic text')

    def __str__(self):
        raise Unsupported('str() of a symbolic text by a C function')

    def __format__(self, spec):
        raise Unsupported('format of a symbolic text by a C function')

    def __getattr__(self, n):
        if n.startswith('__') or not hasattr(str, n):
            raise AttributeError("'str' object has no attribute %r" % n)
        raise Unsupported('str.%s on a symbolic text' % n)

    def plain(self, what):
        for c in self.c:
            if type(c) is Piece:
                raise Unsupported('%s of an opaque text' % what)
        return self.c

    # sequence
    def __len__(self):
        return len(self.plain('len'))

    def __bool__(self):
        for c in self.c:
            if type(c) is not Piece:
                return True
        if self.c:
            return CTX.predicate(('nonempty', repr(norm_key(self.c))))
        return False

    def __iter__(self):
        for c in self.plain('iteration'):
            yield mk((c,))

    def __getitem__(self, i):
        c = self.plain('indexing')
        if type(i) is slice:
            for k in (i.start, i.stop, i.step):
                if k is not None and type(k) is not int:
                    if isinstance_t(k, (SymNum, LinInt)):
                        raise Unsupported('symbolic slice')
            return mk(c[i])
        if isinstance_t(i, (SymNum,)):
            i = i.concrete_int()
        if type(i) is bool:
            i = int(i)
        if type(i) is not int:
            raise TypeError('string indices must be integers, not %r' % type(i).__name__)
        try:
            return mk((c[i],))
        except IndexError:
            raise IndexError('string index out of range')

    def __add__(self, o):
        if not _is_strlike(o):
            return NotImplemented
        return concat(self, o)

    def __radd__(self, o):
        if not _is_strlike(o):
            return NotImplemented
        return concat(o, self)

    def __mul__(self, n):
        return mk(self.c * n)
    __rmul__ = __mul__

    def __contains__(self, o):
        return s_contains(self, o)

    # comparison
    def __eq__(self, o):
        if not _is_strlike(o):
            return False
        return s_eq(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def _cmp(self, o):
        a, b = self.plain('comparison'), chars_of(o)
        for x, y in zip(a, b):
            if ch_eq(x, y):
                continue
            return -1 if ch_less(x, y) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o):
        return NotImplemented if not _is_strlike(o) else self._cmp(o) < 0

    def __le__(self, o):
        return NotImplemented if not _is_strlike(o) else self._cmp(o) <= 0

    def __gt__(self, o):
        return NotImplemented if not _is_strlike(o) else self._cmp(o) > 0

    def __ge__(self, o):
        return NotImplemented if not _is_strlike(o) else self._cmp(o) >= 0

    def __mod__(self, o):
        import rt
        return rt.str_mod(self, o)

    # predicates
    def _all(self, mask):
        c = self.plain('predicate')
        if not c:
            return False
        for x in c:
            if not ch_test(x, mask):
                return False
        return True

    def isnumeric(self): return self._all(CS.pred['isnumeric'])
    def isdigit(self): return self._all(CS.pred['isdigit'])
    def isdecimal(self): return self._all(CS.pred['isdecimal'])
    def isalpha(self): return self._all(CS.pred['isalpha'])
    def isalnum(self): return self._all(CS.pred['isalnum'])
    def isspace(self): return self._all(CS.pred['isspace'])

    def isascii(self):
        for x in self.plain('predicate'):
            if not ch_test(x, CS.pred['isascii']):
                return False
        return True

    def isprintable(self):
        for x in self.plain('predicate'):
            if not ch_test(x, CS.pred['isprintable']):
                return False
        return True

    def _cased(self, good, bad):
        seen = False
        for x in self.plain('predicate'):
            if ch_test(x, CS.pred[bad] | CS.pred['istitlech']):
                return False
            if not seen and ch_test(x, CS.pred[good]):
                seen = True
        return seen

    def isupper(self): return self._cased('isupper', 'islower')

    def islower(self):
        seen = False
        up = CS.pred['isupper'] | CS.pred['istitlech']
        for x in self.plain('predicate'):
            if ch_test(x, up):
                return False
            if not seen and ch_test(x, CS.pred['islower']):
                seen = True
        return seen

    # stripping
    def _mask_arg(self, chars):
        if chars is None:
            return CS.SPACE
        if isinstance_t(chars, (SymStr,)):
            raise Unsupported('strip with symbolic characters')
        return CS.of(chars)

    def lstrip(self, chars=None):
        m = self._mask_arg(chars)
        c = self.plain('strip')
        i = 0
        while i < len(c) and ch_test(c[i], m):
            i += 1
        return mk(c[i:])

    def rstrip(self, chars=None):
        m = self._mask_arg(chars)
        c = self.plain('strip')
        j = len(c)
        while j > 0 and ch_test(c[j - 1], m):
            j -= 1
        return mk(c[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    # searching
    def startswith(self, p, *se):
        s = self[slice(*((list(se) + [None])[:2]))] if se else self
        if type(p) is tuple:
            return any([True for q in p if s_startswith(s, q)][:1]) if False else any(s_startswith(s, q) for q in p)
        if not _is_strlike(p):
            raise TypeError('startswith first arg must be str or a tuple of str, not %s' % type(p).__name__)
        return s_startswith(s, p)

    def endswith(self, p, *se):
        s = self[slice(*((list(se) + [None])[:2]))] if se else self
        for q in (p if type(p) is tuple else (p,)):
            cq, c = chars_of(q), chars_of(s)
            if len(cq) <= len(c) and s_eq(mk(c[len(c) - len(cq):]), q):
                return True
        return False

    def find(self, sub, start=0, end=None):
        if start == 0 and end is None and any(type(x) is Piece for x in self.c + chars_of(sub)):
            if not s_contains(self, sub):
                return -1
            return LinInt('find:%r' % ((norm_key(self.c), norm_key(chars_of(sub))),), 0)
        c, q = self.plain('find'), chars_of(sub)
        end = len(c) if end is None else end
        start, end, _ = slice(start, end).indices(len(c))
        for i in range(start, end - len(q) + 1):
            if s_eq(mk(c[i:i + len(q)]), sub):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        c, q = self.plain('find'), chars_of(sub)
        end = len(c) if end is None else end
        start, end, _ = slice(start, end).indices(len(c))
        for i in range(end - len(q), start - 1, -1):
            if s_eq(mk(c[i:i + len(q)]), sub):
                return i
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, *a):
        if a:
            raise Unsupported('count with bounds')
        if any(type(x) is Piece for x in self.c + chars_of(sub)):
            if not s_contains(self, sub):
                return 0
            return LinInt('count:%r' % ((norm_key(self.c), norm_key(chars_of(sub))),), 0, 1)
        c, q = self.plain('count'), chars_of(sub)
        if not q:
            return len(c) + 1
        n = i = 0
        while i + len(q) <= len(c):
            if s_eq(mk(c[i:i + len(q)]), sub):
                n += 1
                i += len(q)
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        c, q = self.plain('replace'), chars_of(old)
        if not q:
            raise Unsupported('replace of empty')
        out = []
        i = 0
        while i < len(c):
            if count != 0 and i + len(q) <= len(c) and s_eq(mk(c[i:i + len(q)]), old):
                out.extend(chars_of(new))
                i += len(q)
                count -= 1
            else:
                out.append(c[i])
                i += 1
        return mk(out)

    def removeprefix(self, p):
        return self[len(chars_of(p)):] if chars_of(p) and self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(chars_of(p))] if chars_of(p) and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        c = self.plain('split')
        out = []
        if sep is None:
            i = 0
            while True:
                while i < len(c) and ch_test(c[i], CS.SPACE):
                    i += 1
                if i >= len(c):
                    return out
                if maxsplit == 0:
                    out.append(mk(c[i:]).rstrip())
                    return out
                j = i
                while j < len(c) and not ch_test(c[j], CS.SPACE):
                    j += 1
                out.append(mk(c[i:j]))
                maxsplit -= 1
                i = j
        q = chars_of(sep)
        i = b = 0
        while i + len(q) <= len(c):
            if maxsplit != 0 and s_eq(mk(c[i:i + len(q)]), sep):
                out.append(mk(c[b:i]))
                i += len(q)
                b = i
                maxsplit -= 1
            else:
                i += 1
        out.append(mk(c[b:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (mk(self.c), '', '')
        return (self[:i], sep, self[i + len(chars_of(sep)):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', mk(self.c))
        return (self[:i], sep, self[i + len(chars_of(sep)):])

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit')
        out, rest = [], self
        while maxsplit > 0:
            h, x, t = (rest if isinstance_t(rest, (SymStr,)) else SymStr(tuple(rest))).rpartition(sep)
            if not x:
                break
            out.append(t)
            rest = h
            maxsplit -= 1
        return [rest] + out[::-1]

    def splitlines(self, keepends=False):
        c = self.plain('splitlines')
        brk = CS.of([x for x in '\n\r\v\f\x1c\x1d\x1e'])
        other = CS.ALL & ~CS.pred['isascii']
        out, b, i = [], 0, 0
        while i < len(c):
            if ch_test(c[i], other):
                raise Unsupported('splitlines at a non-ASCII character')
            if not ch_test(c[i], brk):
                i += 1
                continue
            e = i + 1
            if e < len(c) and ch_test(c[i], CS.of('\r')) and ch_test(c[e], CS.of('\n')):
                e += 1
            out.append(mk(c[b:e if keepends else i]))
            b = i = e
        if b < len(c):
            out.append(mk(c[b:]))
        return out

    def translate(self, table):
        out = []
        for x in self.plain('translate'):
            for o, r in table.items():
                if ch_eq(x, chr(o)):
                    if r is not None:
                        out.extend(chr(r) if type(r) is int else chars_of(r))
                    break
            else:
                out.append(x)
        return mk(out)

    def capitalize(self):
        raise Unsupported('capitalize')

    # shaping
    def ljust(self, w, f=' '):
        import rt
        return rt.fmt_align(self, '<', w, f)

    def rjust(self, w, f=' '):
        import rt
        return rt.fmt_align(self, '>', w, f)

    def center(self, w, f=' '):
        import rt
        return rt.fmt_align(self, '^', w, f)

    def expandtabs(self, tabsize=8):
        if tabsize in (0, 1):
            return self.replace('\t', ' ' * tabsize)
        raise Unsupported('expandtabs')

    def zfill(self, w):
        if any(type(x) is Piece for x in self.c):
            CTX.approx.append('padding of an opaque text')
            return SymStr((Piece('zfill', w, norm_key(self.c)),))
        c = self.c
        n = max(0, w - len(c))
        if c and ch_test(c[0], CS.of('+-')):
            return concat(mk(c[:1]), '0' * n, mk(c[1:]))
        return concat('0' * n, self)

    def _case(self, selfset, asc, name):
        out = []
        for x in self.plain(name):
            if ch_test(x, CS.pred[selfset]):
                out.append(x)
            elif ch_test(x, asc):
                if type(x) is str:
                    out.append(CS.apply(name, x))
                elif x.map is None:
                    out.append(V(x.var, name))
                elif x.map == ('low' if name == 'up' else 'up'):
                    out.append(V(x.var, None))
                else:
                    raise Unsupported('case map of a mapped character')
            else:
                raise Unsupported('case map of a non-ASCII letter')
        return mk(out)

    def upper(self): return self._case('upperself', CS.rng(97, 122), 'up')
    def lower(self): return self._case('lowerself', CS.rng(65, 90), 'low')

    def join(self, it):
        import rt
        return rt.str_join(self, it)

    def format(self, *a, **k):
        raise Unsupported('symbolic format string')


def s_startswith(s, p):
    if isinstance_t(s, (Lazy,)):
        s = s.force()
    cp, c = chars_of(p), chars_of(s)
    return len(cp) <= len(c) and s_eq(mk(c[:len(cp)]), p)


def ch_less(x, y):
    """x < y for characters already known to differ"""
    if type(y) is str:
        lo = CS.rng(0, ord(y) - 1) if ord(y) else 0
        if lo is None:
            raise Unsupported('ordering of non-ASCII characters')
        return ch_test(x, lo)
    if type(x) is str:
        hi = CS.rng(ord(x) + 1, 0x10ffff)
        if hi is None:
            raise Unsupported('ordering of non-ASCII characters')
        return ch_test(y, hi)
    raise Unsupported('ordering of two symbolic characters')


def s_contains(hay, needle):
    if not _is_strlike(needle):
        raise TypeError("'in <string>' requires string as left operand, not %s" % type(needle).__name__)
    ch, cn = chars_of(hay), chars_of(needle)
    if any(type(c) is Piece for c in ch) or any(type(c) is Piece for c in cn):
        if not cn:
            return True
        if same_key(norm_key(ch), norm_key(cn)):
            return True
        return CTX.predicate(('contains', norm_key(ch), norm_key(cn)))
    if type(hay) is str and len(cn) == 1:
        return ch_test(cn[0], CS.of(hay)) if hay else False
    for i in range(len(ch) - len(cn) + 1):
        if s_eq(mk(ch[i:i + len(cn)]), needle):
            return True
    return False


# ---------------------------------------------------------------- lazy texts
class Lazy:
    """an input text  pre + body + post  where pre and post are whitespace of
    any length and body is empty or starts and ends with non-whitespace.
    strip() is exact; any other operation fixes the number of surrounding
    characters to 0, 1 or 2 on each side (an under-approximation, recorded)."""

    def __init__(self, body, name):
        self.body = body
        self.name = name
        self.forced = None

    @property
    def __class__(self):
        return str

    def __hash__(self):
        raise Unsupported('hash of a symbolic text')

    def strip(self, chars=None):
        if chars is None and self.forced is None:
            return self.body
        return self.force().strip(chars)

    def force(self):
        if self.forced is None:
            n = CTX.decide(3)
            m = CTX.decide(3) if n == 0 else (0, 1)[CTX.decide(2)]
            CTX.labels.append('padding of the raw line limited to 2 characters')
            pre = [V(CTX.newvar(CS.SPACE)) for _ in range(n)]
            post = [V(CTX.newvar(CS.SPACE)) for _ in range(m)]
            self.forced = SymStr(tuple(pre) + chars_of(self.body) + tuple(post))
        return self.forced

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.force(), n)

    def __len__(self): return len(self.force())
    def __bool__(self): return len(self.force()) > 0
    def __iter__(self): return iter(self.force())
    def __getitem__(self, i): return self.force()[i]
    def __add__(self, o): return concat(self.force(), o) if _is_strlike(o) else NotImplemented
    def __radd__(self, o): return concat(o, self.force()) if _is_strlike(o) else NotImplemented
    def __contains__(self, o): return s_contains(self.force(), o)
    def __eq__(self, o): return o is self or (_is_strlike(o) and s_eq(self.force(), o))
    def __ne__(self, o): return not self.__eq__(o)
    def __str__(self): raise Unsupported('str() of a symbolic text by a C function')
    def __format__(self, s): raise Unsupported('format of a symbolic text by a C function')


class LongStr(SymStr):
    """a body of 173 characters or more (141 characters at the front, 32 at
    the back, an unknown middle), or a part of one that keeps the middle"""
    __slots__ = ()
    FRONT, BACK = 141, 32

    def parts(self):
        for i, x in enumerate(self.c):
            if type(x) is Piece:
                return self.c[:i], x, self.c[i + 1:]

    def plain(self, what):
        raise Unsupported('%s of a text of unknown length' % what)

    def __bool__(self):
        return True

    def __len__(self):
        raise Unsupported('len of a text of unknown length by a C function')

    def least(self):
        return len(self.c) - 1

    def symlen(self):
        f, m, b = self.parts()
        return LinInt('len:%d' % m.key[1], len(f) + len(b) - self.FRONT - self.BACK)

    def __getitem__(self, i):
        f, m, b = self.parts()
        F, B = len(f), len(b)
        if isinstance_t(i, (SymNum,)):
            i = i.concrete_int()
        if type(i) is int:
            if 0 <= i < F:
                return mk((f[i],))
            if -B <= i < 0:
                return mk((b[i],))
        elif type(i) is slice and i.step in (None, 1):
            s, e = i.start or 0, i.stop
            if type(s) is int and (e is None or type(e) is int):
                if 0 <= s <= F and e is not None and 0 <= e <= F:
                    return mk(f[s:e])
                if -B <= s < 0 and (e is None or -B <= e < 0):
                    return mk(b[s:e])
                if 0 <= s <= F and (e is None or -B <= e < 0):
                    r = f[s:] + (m,) + b[:e]
                    if len(r) > 1:
                        return LongStr(r)
        raise Unsupported('index into the unknown middle of a long text')

    def startswith(self, p, *se):
        if se:
            return self[slice(*(list(se) + [None])[:2])].startswith(p)
        for q in (p if type(p) is tuple else (p,)):
            if s_eq(self[:len(chars_of(q))], q):
                return True
        return False

    def endswith(self, p, *se):
        if se:
            raise Unsupported('endswith with bounds')
        for q in (p if type(p) is tuple else (p,)):
            n = len(chars_of(q))
            if n == 0 or s_eq(self[-n:], q):
                return True
        return False

    def _all(self, mask):
        f, m, b = self.parts()
        for x in f + b:
            if not ch_test(x, mask):
                return False
        CTX.approx.append('predicate on the unknown middle of a long text')
        return CTX.predicate(('all', m.key, mask))

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars=None):
        f, m, b = self.parts()
        k = self._mask_arg(chars)
        for i, x in enumerate(f):
            if not ch_test(x, k):
                return LongStr(self.c[i:])
        raise Unsupported('strip of a long text')

    def rstrip(self, chars=None):
        f, m, b = self.parts()
        k = self._mask_arg(chars)
        for j in range(len(b) - 1, -1, -1):
            if not ch_test(b[j], k):
                return LongStr(f + (m,) + b[:j + 1])
        raise Unsupported('strip of a long text')

    def _pad(self, w, *f):
        if type(w) is int and w <= self.least():
            return self
        raise Unsupported('padding of a long text')
    ljust = rjust = center = zfill = _pad


# ---------------------------------------------------------------- numbers
class SymNum:
    """non-negative decimal number given by digit characters: digits / 10**scale;
    isint tells int from float"""
    __slots__ = ('d', 'scale', 'isint')

    def __init__(self, d, scale=0, isint=True):
        self.d = tuple(d)
        self.scale = scale
        self.isint = isint

    @property
    def __class__(self):
        return int if self.isint else float

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        """fork over every value (at most 10**4)"""
        if len([x for x in self.d if type(x) is not str]) > 4:
            raise Unsupported('arithmetic on a long symbolic number')
        s = ''.join(ch_concretise(x) for x in self.d)
        n = int(s)
        if self.isint and self.scale == 0:
            return n
        return n / 10 ** self.scale if self.scale else float(n)

    def concrete_int(self):
        n = self.concrete()
        if type(n) is not int:
            raise TypeError('float index')
        return n

    def __index__(self):
        return self.concrete_int()

    def __int__(self):
        raise Unsupported('int() by C')

    def __float__(self):
        raise Unsupported('float() by C')

    def __bool__(self):
        for x in self.d:
            if not ch_eq(x, '0'):
                return True
        return False

    def canon(self):
        """digits of the integer part without leading zeros, fraction digits"""
        d = self.d
        if len(d) <= self.scale:
            d = ('0',) * (self.scale + 1 - len(d)) + d
        ip, fp = d[:len(d) - self.scale], d[len(d) - self.scale:]
        i = 0
        while i < len(ip) - 1 and ch_eq(ip[i], '0'):
            i += 1
        return ip[i:], fp

    # arithmetic
    def __truediv__(self, o):
        if type(o) in (int, float) and o in (1, 10, 100, 1000, 10000) and len(self.d) <= 15:
            return SymNum(self.d, self.scale + len(str(int(o))) - 1, False)
        return self.concrete() / o

    def __mul__(self, o):
        if type(o) is int and o in (10, 100, 1000) and self.isint:
            return SymNum(self.d + ('0',) * (len(str(o)) - 1), 0, True)
        return self.concrete() * o
    __rmul__ = __mul__

    def __add__(self, o): return self.concrete() + o
    __radd__ = __add__
    def __sub__(self, o): return self.concrete() - o
    def __rsub__(self, o): return o - self.concrete()
    def __floordiv__(self, o):
        if type(o) is int and o in (10, 100, 1000) and self.isint:
            k = len(str(o)) - 1
            return SymNum(self.d[:-k] or ('0',), 0, True)
        return self.concrete() // o
    def __mod__(self, o):
        if type(o) is int and o in (10, 100, 1000) and self.isint:
            k = len(str(o)) - 1
            return SymNum(self.d[-k:], 0, True)
        return self.concrete() % o
    def __divmod__(self, o): return (self // o, self % o)
    def __neg__(self): return -self.concrete()
    def __pos__(self): return self
    def __abs__(self): return self
    def __round__(self, n=None): return round(self.concrete(), n)

    def _cmp(self, o):
        if isinstance_t(o, (SymNum,)):
            if o.scale == self.scale and len(o.d) == len(self.d) and all(ch_eq(a, b) for a, b in zip(self.d, o.d)):
                return 0
            o = o.concrete()
        if type(o) is bool:
            o = int(o)
        if type(o) is float:
            if self.scale == 0 and o == int(o):
                o = int(o)
            else:
                c = self.concrete()
                return (c > o) - (c < o)
        if type(o) is not int:
            return None
        if self.scale:
            c = self.concrete()
            return (c > o) - (c < o)
        if o < 0:
            return 1
        s = str(o)
        if len(s) > len(self.d):
            return -1
        s = s.rjust(len(self.d), '0')
        for x, y in zip(self.d, s):
            if ch_eq(x, y):
                continue
            return -1 if ch_less(x, y) else 1
        return 0

    def __eq__(self, o): return self._cmp(o) == 0
    def __ne__(self, o): return self._cmp(o) != 0
    def __lt__(self, o): return self._rel(o, lambda r: r < 0)
    def __le__(self, o): return self._rel(o, lambda r: r <= 0)
    def __gt__(self, o): return self._rel(o, lambda r: r > 0)
    def __ge__(self, o): return self._rel(o, lambda r: r >= 0)

    def _rel(self, o, f):
        r = self._cmp(o)
        return NotImplemented if r is None else f(r)

    def text(self):
        """str() of the number"""
        ip, fp = self.canon()
        if self.isint:
            return mk(ip)
        if len(ip) + len(fp) > 15 or len(fp) > 3:
            raise Unsupported('text of a long symbolic float')
        fp = list(fp) or ['0']
        while len(fp) > 1 and ch_eq(fp[-1], '0'):
            fp.pop()
        return mk(tuple(ip) + ('.',) + tuple(fp))

    def fixed(self, k):
        ip, fp = self.canon()
        if len(fp) > k:
            return '%.*f' % (k, self.concrete())
        return mk(tuple(ip) + (('.',) if k else ()) + tuple(fp) + ('0',) * (k - len(fp)))

    def __str__(self): raise Unsupported('str() of a symbolic number by C')
    def __format__(self, s): raise Unsupported('format of a symbolic number by C')
    def __repr__(self): return 'SymNum(%d digits, scale %d)' % (len(self.d), self.scale)


class OpaqueNum:
    """a number parsed from a text that is not made of digits only"""
    __slots__ = ('key',)

    def __init__(self, *key):
        self.key = key

    @property
    def __class__(self):
        return float if 'float' in self.key else int

    def __hash__(self):
        raise Unsupported('hash of an opaque number')

    def _op(self, name, o):
        k = o.key if isinstance_t(o, (OpaqueNum,)) else repr(o)
        CTX.approx.append('arithmetic on an opaque number')
        return OpaqueNum(name, self.key, k, 'float' if 'float' in self.key or name == 'div' else '')

    def __truediv__(self, o): return self._op('div', o)
    def __mul__(self, o): return self._op('mul', o)
    __rmul__ = __mul__
    def __add__(self, o): return self._op('add', o)
    __radd__ = __add__
    def __sub__(self, o): return self._op('sub', o)
    def __floordiv__(self, o): return self._op('fdiv', o)
    def __mod__(self, o): return self._op('mod', o)
    def __neg__(self): return self._op('neg', 0)
    def __abs__(self): return self._op('abs', 0)
    def _b(self, name, o):
        CTX.approx.append('comparison of an opaque number')
        return CTX.predicate((name, self.key, o.key if isinstance_t(o, (OpaqueNum,)) else repr(o)))
    def __eq__(self, o): return (isinstance_t(o, (OpaqueNum,)) and o.key == self.key) or self._b('eq', o)
    def __ne__(self, o): return not (self == o)
    def __lt__(self, o): return self._b('lt', o)
    def __le__(self, o): return self._b('le', o)
    def __gt__(self, o): return self._b('gt', o)
    def __ge__(self, o): return self._b('ge', o)
    def __bool__(self): return self._b('bool', 0)
    def __str__(self): raise Unsupported('str() of a symbolic number by C')
    def __format__(self, s): raise Unsupported('format of a symbolic number by C')
    def __index__(self): raise Unsupported('opaque index')

    def text(self, spec=''):
        CTX.approx.append('text of an opaque number')
        return SymStr((Piece('num', self.key, spec),))


class SymOrd:
    """ord() of a symbolic character"""
    __slots__ = ('ch',)

    def __init__(self, ch):
        self.ch = ch

    @property
    def __class__(self):
        return int

    def __hash__(self):
        raise Unsupported('hash of a symbolic code point')

    def _in(self, lo, hi):
        m = CS.rng(lo, hi) if lo <= hi else 0
        if m is None:
            raise Unsupported('ordering of non-ASCII characters')
        return ch_test(self.ch, m)

    def _k(self, o):
        if isinstance_t(o, (SymOrd,)) or type(o) not in (int, bool):
            raise Unsupported('arithmetic on a symbolic code point')
        return int(o)

    def __eq__(self, o):
        if isinstance_t(o, (SymOrd,)):
            return ch_eq(self.ch, o.ch)
        return type(o) is int and self._in(o, o)
    def __ne__(self, o): return not self == o
    def __lt__(self, o): return self._in(0, self._k(o) - 1)
    def __le__(self, o): return self._in(0, self._k(o))
    def __gt__(self, o): return self._in(self._k(o) + 1, 0x10ffff)
    def __ge__(self, o): return self._in(self._k(o), 0x10ffff)
    def __bool__(self): return not self._in(0, 0)
    def _un(self, *a): raise Unsupported('arithmetic on a symbolic code point')
    def __sub__(self, o):
        if type(o) is int and o == 48 and self._in(48, 57):
            return SymNum((self.ch,))
        self._un()
    __add__ = __radd__ = __rsub__ = __mul__ = __mod__ = __floordiv__ = __truediv__ = __index__ = _un
    def __str__(self): raise Unsupported('str() of a symbolic number by C')
    def __format__(self, s): raise Unsupported('format of a symbolic number by C')
    def text(self, spec=''): raise Unsupported('text of a symbolic code point')


def lit(n):
    return str(n) if n >= 0 else '(- %d)' % -n


class LinInt:
    """base + offset for an unbounded non-negative integer unknown"""
    __slots__ = ('base', 'off')

    def __init__(self, base, off=0, lo=0):
        self.base = base
        self.off = off
        if base.startswith('len:'):
            lo = 173
        CTX.ints.setdefault(base, [lo, None])

    @property
    def __class__(self):
        return int

    def __hash__(self):
        raise Unsupported('hash of a symbolic integer')

    def __add__(self, o):
        if type(o) is bool:
            o = int(o)
        return LinInt(self.base, self.off + o) if type(o) is int else self._un()
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance_t(o, (LinInt,)) and o.base == self.base:
            return self.off - o.off
        return LinInt(self.base, self.off - o) if type(o) is int else self._un()

    def _un(self):
        raise Unsupported('arithmetic on an unbounded symbolic integer')
    __mul__ = __rmul__ = __floordiv__ = __mod__ = __truediv__ = __neg__ = __rsub__ = lambda s, *a: s._un()

    def _ge(self, k):
        """base + off >= k"""
        k -= self.off
        lo, hi = CTX.ints[self.base]
        n = smt_name(self.base)
        pre = ['(<= %d %s)' % (lo, n)] + (['(<= %s %d)' % (n, hi)] if hi is not None else [])
        if lo >= k:
            smt_log(['(declare-const %s Int)' % n], pre, '(>= (+ %s %s) %s)' % (n, lit(self.off), lit(k + self.off)))
            return True
        if hi is not None and hi < k:
            smt_log(['(declare-const %s Int)' % n], pre, '(< (+ %s %s) %s)' % (n, lit(self.off), lit(k + self.off)))
            return False
        if CTX.decide(2) == 0:
            CTX.ints[self.base][0] = k
            return True
        CTX.ints[self.base][1] = k - 1
        return False

    def _o(self, o):
        if isinstance_t(o, (LinInt,)):
            if o.base == self.base:
                return o.off - self.off, True
            self._un()
        if type(o) in (int, bool):
            return int(o), False
        raise Unsupported('comparison of a symbolic integer with %r' % type(o))

    def _lines(self, o, rel):
        """comparison of the lines seen with the number of lines: fewer while
        there is a current line, as many after the last one"""
        if not isinstance_t(o, (LinInt,)) or {self.base, o.base} != {'seen', 'total'}:
            return None
        import rt
        mode = rt.LOOP.mode if rt.LOOP is not None else None
        d = self.off - o.off          # self - o = d - n or d + n for the n lines that are left
        if mode == 'exit':
            return rel(d)
        if mode != 'step':
            self._un()
        far = -10**9 if self.base == 'seen' else 10**9
        near = d - 1 if self.base == 'seen' else d + 1
        rs = {rel(x) for x in ((near, far) if near * far > 0 or near == 0 else (near, 0, far))}
        if len(rs) != 1:
            self._un()
        return rs.pop()

    def __ge__(self, o):
        r = self._lines(o, lambda x: x >= 0)
        if r is not None:
            return r
        k, d = self._o(o)
        return 0 >= k if d else self._ge(k)
    def __gt__(self, o):
        r = self._lines(o, lambda x: x > 0)
        if r is not None:
            return r
        k, d = self._o(o)
        return 0 > k if d else self._ge(k + 1)
    def __lt__(self, o): return not self >= o
    def __le__(self, o): return not self > o
    def __eq__(self, o):
        if type(o) is str or o is None:
            return False
        r = self._lines(o, lambda x: x == 0)
        if r is not None:
            return r
        k, d = self._o(o)
        return k == 0 if d else (self._ge(k) and not self._ge(k + 1))
    def __ne__(self, o): return not self == o
    def __bool__(self): return not self == 0
    def __index__(self): self._un()
    def __str__(self): raise Unsupported('str() of a symbolic integer by C')
    def __format__(self, s): raise Unsupported('format of a symbolic integer by C')
    def text(self, spec=''):
        return SymStr((Piece('int', self.base, self.off, spec),))
