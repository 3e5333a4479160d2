"""Regular expressions on symbolic texts: CPython's own parse tree of the
pattern, matched by backtracking; every character test is a set test that
forks the path.  Constructs outside the list below leave the path undecided."""
import functools
import re
from re import _constants as K
from re import _parser

import sym
from sym import SymStr, Lazy, LongStr, Piece, Unsupported, chars_of, mk, ch_test, isinstance_t, s_eq

OKFLAGS = re.UNICODE | re.DOTALL | re.MULTILINE | re.VERBOSE | re.ASCII


class Text:
    """characters by position; a long text has a known front and back only"""

    def __init__(self, s):
        self.s = s
        c = chars_of(s)
        if isinstance_t(s, (LongStr,)):
            self.c, self.n = s.parts()[0], None
        else:
            for x in c:
                if type(x) is Piece:
                    raise Unsupported('regular expression on an opaque text')
            self.c, self.n = c, len(c)

    def at(self, i):
        """the character at i, None at the end"""
        if i < len(self.c):
            return self.c[i]
        if self.n is None:
            raise Unsupported('regular expression reaches the unknown middle of a long text')
        return None

    def end(self, i):
        if self.n is None:
            if i > len(self.c):
                raise Unsupported('regular expression reaches the unknown middle of a long text')
            return False
        return i == self.n


def mask_of(op, av, flags):
    CS = sym.CS
    if op is K.LITERAL:
        m = CS.single(chr(av))
        if m is None:
            raise Unsupported('character outside the alphabet')
        return m
    if op is K.NOT_LITERAL:
        return CS.ALL & ~mask_of(K.LITERAL, av, flags)
    if op is K.ANY:
        return CS.ALL if flags & re.DOTALL else CS.ALL & ~CS.of('\n')
    if op is K.RANGE:
        m = CS.rng(*av)
        if m is None:
            raise Unsupported('range of non-ASCII characters')
        return m
    if op is K.CATEGORY:
        asc = CS.pred['isascii'] if flags & re.ASCII else CS.ALL
        neg = {K.CATEGORY_NOT_DIGIT: K.CATEGORY_DIGIT, K.CATEGORY_NOT_SPACE: K.CATEGORY_SPACE,
               K.CATEGORY_NOT_WORD: K.CATEGORY_WORD}
        if av in neg:
            return CS.ALL & ~mask_of(op, neg[av], flags)
        if av is K.CATEGORY_DIGIT:
            return CS.DECIMAL & asc
        if av is K.CATEGORY_SPACE:
            return CS.of(' \t\n\r\f\v') if flags & re.ASCII else CS.SPACE
        if av is K.CATEGORY_WORD:
            return (CS.pred['isalnum'] | CS.of('_')) & asc
    if op is K.IN:
        m, neg = 0, False
        for o, a in av:
            if o is K.NEGATE:
                neg = True
            else:
                m |= mask_of(o, a, flags)
        return CS.ALL & ~m if neg else m
    raise Unsupported('regular expression construct %s' % op)


def seq(items, i, T, pos, g, flags):
    """generator of (position, groups) in the order CPython tries them"""
    if i == len(items):
        yield pos, g
        return
    op, av = items[i]
    if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
        c = T.at(pos)
        if c is not None and ch_test(c, mask_of(op, av, flags)):
            yield from seq(items, i + 1, T, pos + 1, g, flags)
        return
    if op is K.AT:
        if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            ok = pos == 0 or (av is K.AT_BEGINNING and flags & re.MULTILINE and ch_test(T.at(pos - 1), sym.CS.of('\n')))
        elif av is K.AT_END_STRING:
            ok = T.end(pos)
        elif av is K.AT_END:
            ok = T.end(pos)
            if not ok and (flags & re.MULTILINE or pos + 1 == T.n):
                ok = ch_test(T.at(pos), sym.CS.of('\n'))
        else:
            raise Unsupported('regular expression construct %s' % av)
        if ok:
            yield from seq(items, i + 1, T, pos, g, flags)
        return
    if op is K.SUBPATTERN:
        gid, add, dele, p = av
        if add or dele:
            raise Unsupported('inline flags')
        for q, h in seq(list(p), 0, T, pos, g, flags):
            if gid is not None:
                h = dict(h)
                h[gid] = (pos, q)
            yield from seq(items, i + 1, T, q, h, flags)
        return
    if op is K.BRANCH:
        for alt in av[1]:
            for q, h in seq(list(alt), 0, T, pos, g, flags):
                yield from seq(items, i + 1, T, q, h, flags)
        return
    if op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, p = av
        p = list(p)

        def rep(n, pos, g):
            if op is K.MIN_REPEAT and n >= lo:
                yield pos, g
            if n < hi:
                for q, h in seq(p, 0, T, pos, g, flags):
                    if q == pos and n >= lo:
                        raise Unsupported('repetition of an empty match')
                    yield from rep(n + 1, q, h)
            if op is K.MAX_REPEAT and n >= lo:
                yield pos, g
        for q, h in rep(0, pos, g):
            yield from seq(items, i + 1, T, q, h, flags)
        return
    if op in (K.ASSERT, K.ASSERT_NOT):
        d, p = av
        if d != 1:
            raise Unsupported('look-behind')
        found = next(seq(list(p), 0, T, pos, g, flags), None)
        if op is K.ASSERT_NOT:
            if found is None:
                yield from seq(items, i + 1, T, pos, g, flags)
        elif found is not None:
            yield from seq(items, i + 1, T, pos, found[1], flags)
        return
    if op is K.GROUPREF:
        if av not in g:
            return
        a, b = g[av]
        if T.n is None or pos + b - a > T.n:
            if T.n is None:
                raise Unsupported('back reference in a long text')
            return
        if s_eq(mk(T.c[a:b]), mk(T.c[pos:pos + b - a])):
            yield from seq(items, i + 1, T, pos + b - a, g, flags)
        return
    raise Unsupported('regular expression construct %s' % op)


class Match:
    def __init__(self, pat, T, span, groups):
        self.re, self.T, self._span, self._g = pat, T, span, groups

    @property
    def string(self):
        return self.T.s

    @property
    def lastindex(self):
        raise Unsupported('lastindex')
    lastgroup = lastindex

    def _idx(self, k):
        if type(k) is str:
            try:
                return self.re.groupindex[k]
            except KeyError:
                raise IndexError('no such group')
        if not 0 <= k <= self.re.groups:
            raise IndexError('no such group')
        return k

    def span(self, k=0):
        k = self._idx(k)
        return self._span if k == 0 else self._g.get(k, (-1, -1))

    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]

    def _get(self, k, default=None):
        a, b = self.span(k)
        return default if a < 0 else mk(self.T.c[a:b])

    def group(self, *ks):
        if len(ks) <= 1:
            return self._get(ks[0] if ks else 0)
        return tuple(self._get(k) for k in ks)
    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._get(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._get(k, default) for n, k in self.re.groupindex.items()}

    def __bool__(self):
        return True


@functools.lru_cache(None)
def tree(pat):
    if type(pat.pattern) is not str or pat.flags & ~OKFLAGS:
        raise Unsupported('regular expression flags')
    return list(_parser.parse(pat.pattern, pat.flags & ~re.UNICODE))


def text(s):
    if isinstance_t(s, (Lazy,)):
        s = s.force()
    if not isinstance_t(s, (SymStr,)) and type(s) is not str:
        raise TypeError('expected string or bytes-like object, got %r' % type(s).__name__)
    return Text(s)


def one(pat, T, pos, full=False):
    for q, g in seq(tree(pat), 0, T, pos, {}, pat.flags):
        if not full or T.end(q):
            return Match(pat, T, (pos, q), g)
    return None


def match(pat, s):
    return one(pat, text(s), 0)


def fullmatch(pat, s):
    return one(pat, text(s), 0, True)


def search(pat, s, T=None, pos=0):
    T = T or text(s)
    while True:
        m = one(pat, T, pos)
        if m is not None:
            return m
        if T.end(pos):
            return None
        pos += 1


def finditer(pat, s):
    T = text(s)
    pos = 0
    while True:
        m = search(pat, s, T, pos)
        if m is None:
            return
        if m.end() == m.start():
            raise Unsupported('empty matches')
        yield m
        pos = m.end()


def findall(pat, s):
    return [m.group() if not pat.groups else m.groups('')[0] if pat.groups == 1 else m.groups('') for m in finditer(pat, s)]


def split(pat, s, maxsplit=0):
    T = text(s)
    out, pos = [], 0
    for m in finditer(pat, s):
        if maxsplit and len(out) >= maxsplit * (1 + pat.groups):
            break
        out.append(mk(T.c[pos:m.start()]))
        out.extend(m.groups())
        pos = m.end()
    out.append(mk(T.c[pos:]))
    return out


def sub(pat, repl, s, count=0):
    import rt
    T = text(s)
    if type(repl) is str and '\\' in repl:
        raise Unsupported('replacement template')
    out, pos, n = [], 0, 0
    for m in finditer(pat, s):
        if count and n >= count:
            break
        out.append(mk(T.c[pos:m.start()]))
        out.append(repl if isinstance(repl, str) else rt.call(repl, m))
        pos = m.end()
        n += 1
    out.append(mk(T.c[pos:]))
    return sym.concat(*out)


METHODS = {'match': match, 'fullmatch': fullmatch, 'search': search, 'finditer': finditer, 'findall': findall,
           'split': split, 'sub': sub}


def method(pat, name, a, k):
    if name not in METHODS or (len(a) > 1 and name not in ('sub', 'split')):
        raise Unsupported('regular expression %s on a symbolic text' % name)
    return METHODS[name](pat, *a, **k)


def function(name):
    def f(pattern, *a, flags=0, **k):
        import rt
        n = {'sub': 2, 'split': 1}.get(name, 1)
        if len(a) > n and name not in ('sub', 'split'):
            flags, a = a[n], a[:n]
        if not rt.deep_sym((pattern, a, k)):
            return getattr(re, name)(pattern, *a, flags=flags, **k)
        if rt.deep_sym(pattern):
            raise Unsupported('symbolic pattern')
        return method(re.compile(pattern, flags), name, a, k)
    return f
