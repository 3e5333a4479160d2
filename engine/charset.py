"""Exact model of Python characters.

The Unicode code points are partitioned into *atoms*: every ASCII character,
every non-ASCII character that occurs in a string literal of the code under
verification or of the specifications, and, for the remaining code points,
one atom per signature of the str predicates.  A set of characters is a bit
mask over atoms; the partition is exact for every predicate below, so a mask
operation is an exact set operation.  z3 sees the sets as unions of code
point ranges (see vc.py), not as masks.
"""
import unicodedata

PREDS = ('isspace', 'isalpha', 'isdecimal', 'isdigit', 'isnumeric', 'isupper',
         'islower', 'isprintable', 'isidentifier')


def _sig(c):
    d = unicodedata.decimal(c, None)
    return tuple(getattr(c, p)() for p in PREDS) + (
        d, ('a' + c).isidentifier(), c.istitle(), c.upper() == c, c.lower() == c)


class Charset:
    def __init__(self, extra=''):
        singles = [chr(i) for i in range(128)] + sorted({c for c in extra if ord(c) >= 128})
        self.index = {c: i for i, c in enumerate(singles)}   # single-char atoms
        self.sigs = [_sig(c) for c in singles]
        self.ranges = [[(ord(c), ord(c))] for c in singles]
        self.rep = list(singles)
        bysig = {}
        ex = set(singles)
        for cp in range(128, 0x110000):
            c = chr(cp)
            if c in ex:
                continue
            s = _sig(c)
            i = bysig.get(s)
            if i is None:
                i = bysig[s] = len(self.sigs)
                self.sigs.append(s)
                self.ranges.append([(cp, cp)])
                self.rep.append(c)
            else:
                r = self.ranges[i]
                if r[-1][1] == cp - 1:
                    r[-1] = (r[-1][0], cp)
                else:
                    r.append((cp, cp))
        self.n = len(self.sigs)
        self.ALL = (1 << self.n) - 1
        self.pred = {}
        for k, p in enumerate(PREDS):
            self.pred[p] = self._mk(lambda s: s[k])
        np = len(PREDS)
        self.decval = [self._mk(lambda s, d=d: s[np] == d) for d in range(10)]
        self.pred['isalnum'] = (self.pred['isalpha'] | self.pred['isdecimal'] |
                                self.pred['isdigit'] | self.pred['isnumeric'])
        self.pred['xidcontinue'] = self._mk(lambda s: s[np + 1])
        self.pred['istitlech'] = self._mk(lambda s: s[np + 2])
        self.pred['upperself'] = self._mk(lambda s: s[np + 3])
        self.pred['lowerself'] = self._mk(lambda s: s[np + 4])
        self.pred['isascii'] = (1 << 128) - 1
        self.SPACE = self.pred['isspace']
        self.DECIMAL = self.pred['isdecimal']
        # preimages of the character maps
        self._pre = {}
        self.pref = [ord(c) for c in 'AB1 C2D3X0ZTSE']  # preferred model characters

    def _mk(self, f):
        m = 0
        for i, s in enumerate(self.sigs):
            if f(s):
                m |= 1 << i
        return m

    def single(self, c):
        """mask of one concrete character, or None if it has no atom of its own"""
        i = self.index.get(c)
        return None if i is None else 1 << i

    def of(self, chars):
        m = 0
        for c in chars:
            s = self.single(c)
            if s is None:
                raise KeyError(c)
            m |= s
        return m

    def rng(self, lo, hi):
        """characters with lo <= ord(c) <= hi; None if the partition cuts it"""
        m = 0
        for i, rs in enumerate(self.ranges):
            inside = [r for r in rs if r[0] >= lo and r[1] <= hi]
            if len(inside) == len(rs):
                m |= 1 << i
            elif inside or any(not (r[1] < lo or r[0] > hi) for r in rs):
                return None
        return m

    def preimage(self, mapname, mask):
        k = (mapname, mask)
        r = self._pre.get(k)
        if r is None:
            r = 0
            if mapname == 'dig':
                for d in range(10):
                    if mask >> (48 + d) & 1:
                        r |= self.decval[d]
            elif mapname == 'up':      # ASCII lower-case letters only
                for c in range(97, 123):
                    if mask >> (c - 32) & 1:
                        r |= 1 << c
            elif mapname == 'low':
                for c in range(65, 91):
                    if mask >> (c + 32) & 1:
                        r |= 1 << c
            else:
                raise AssertionError(mapname)
            self._pre[k] = r
        return r

    def apply(self, mapname, c):
        if mapname is None:
            return c
        if mapname == 'dig':
            return str(unicodedata.decimal(c))
        if mapname == 'up':
            return c.upper()
        if mapname == 'low':
            return c.lower()

    def members(self, mask):
        i = 0
        while mask:
            if mask & 1:
                yield i
            mask >>= 1
            i += 1

    def pick(self, mask, rnd=None):
        """a concrete character of a nonempty mask"""
        if rnd is None:
            for o in self.pref:
                if mask >> o & 1:
                    return chr(o)
            pr = mask & (((1 << 95) - 1) << 32)
            if pr:
                return chr((pr & -pr).bit_length() - 1)
            return self.rep[(mask & -mask).bit_length() - 1]
        asc = mask & (((1 << 95) - 1) << 32)
        if asc and (asc == mask or rnd.random() < 0.9):
            mask = asc
        i = rnd.choice(list(self.members(mask)))
        lo, hi = rnd.choice(self.ranges[i])
        return chr(rnd.randint(lo, hi))

    def to_ranges(self, mask):
        rs = sorted(r for i in self.members(mask) for r in self.ranges[i])
        out = []
        for lo, hi in rs:
            if out and out[-1][1] == lo - 1:
                out[-1][1] = hi
            else:
                out.append([lo, hi])
        return out
