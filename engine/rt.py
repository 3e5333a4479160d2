"""Run-time support of the instrumented code: every call, subscript,
membership test, % and f-string of the code under verification goes through
the functions below.  On concrete operands they do what CPython does; on
symbolic operands they use the models."""
import builtins
import collections
import enum
import functools
import gc
import io
import itertools
import json
import operator
import os
import pathlib
import sys
import types

import regex
import sym
from sym import (SymStr, SymNum, OpaqueNum, LinInt, SymOrd, Lazy, LongStr, Piece, V, Unsupported, Infeasible,
                 CutPath, EngineStop, mk, concat, chars_of, ch_test, ch_eq, isinstance_t, norm_key)

STR = (SymStr, Lazy)
NUM = (SymNum, OpaqueNum, LinInt, SymOrd)
MAXSTEPS = 400000


def is_sym(x):
    return isinstance_t(x, (SymStr, SymNum, Lazy, OpaqueNum, LinInt, SymOrd, Model, SymLines, SymFiles))


def deep_sym(x, d=3):
    if x is None or type(x) in (str, int, float, bool, bytes):
        return False
    if is_sym(x):
        return True
    if d:
        t = type(x)
        if t in (list, tuple, set, frozenset, collections.deque):
            return any(deep_sym(y, d - 1) for y in x)
        if isinstance(x, dict):
            return any(deep_sym(y, d - 1) for y in x.values()) or any(deep_sym(y, d - 1) for y in x.keys())
    return False


class Model:
    """base of modelled external objects"""


# ---------------------------------------------------------------- formatting
def fmt_align(s, align, width, fill):
    c = chars_of(s)
    if any(type(x) is Piece for x in c):
        sym.CTX.approx.append('padding of an opaque text')
        return SymStr((Piece('pad', align, width, fill, norm_key(c)),))
    n = width - len(c)
    if n <= 0:
        return mk(c)
    if align == '<':
        l, r = 0, n
    elif align == '>':
        l, r = n, 0
    else:
        l, r = n // 2, n - n // 2
    return concat(fill * l, mk(c), fill * r)


import re as _re
_SPEC = _re.compile(r'(?:(.)?([<>=^]))?([-+ ]?)(#?)(0?)(\d*)([,_]?)(?:\.(\d+))?([a-zA-Z%]?)$', _re.S)


def py_format(x, spec=''):
    if is_sym(spec):
        raise Unsupported('symbolic format spec')
    if isinstance_t(x, (Lazy,)):
        x = x.force()
    if isinstance_t(x, (Model,)):
        if spec:
            raise Unsupported('format of a model object')
        return x.text()
    if not is_sym(x):
        if deep_sym(x):
            if spec:
                raise TypeError('unsupported format string')
            return to_str(x)
        return user_format(x, spec)
    if not spec:
        return to_str(x)
    if isinstance_t(x, (OpaqueNum, LinInt)):
        return x.text(spec)
    m = _SPEC.match(spec)
    if not m:
        raise Unsupported('format spec %r' % spec)
    fill, align, sign, alt, zero, width, grp, prec, typ = m.groups()
    width = int(width or 0)
    if isinstance_t(x, (SymStr,)):
        if typ not in ('', 's') or sign or alt or grp or align == '=':
            raise ValueError('Unknown format code for str')
        if zero and not align:
            fill, align = '0', '<'
        c = mk(x.c if prec is None else x.plain('format')[:int(prec)])
        return fmt_align(c, align or '<', width, fill or ' ') if width else c
    # SymNum
    if sign or alt or grp:
        raise Unsupported('format spec %r' % spec)
    if x.isint and typ in ('', 'd', 'n') and prec is None:
        t = x.text()
    elif typ in ('f', 'F'):
        t = x.fixed(6 if prec is None else int(prec))
    elif typ == '' and prec is None:
        t = x.text()
    elif x.isint and typ not in ('f', 'F', 'e', 'g', 'E', 'G', '%', 'x', 'X', 'o', 'b', 'c'):
        raise ValueError("Unknown format code '%s' for object of type 'int'" % typ)
    else:
        return format(x.concrete(), spec)
    if zero and not align:
        fill, align = '0', '='
    a = align or '>'
    return fmt_align(t, '>' if a == '=' else a, width, fill or ' ')


def user_format(x, spec):
    f = type(x).__format__
    if f is object.__format__ and not spec:
        return to_str(x)
    return format(x, spec)


def to_str(x):
    if type(x) is str:
        return x
    if isinstance_t(x, (Lazy,)):
        return x.force()
    if isinstance_t(x, (SymStr,)):
        return x
    if isinstance_t(x, (SymNum, OpaqueNum, LinInt, Model)):
        return x.text()
    if isinstance(x, BaseException):
        a = x.args
        if deep_sym(a):
            return to_str(a[0]) if len(a) == 1 and is_sym(a[0]) else SymStr((Piece('exc', type(x).__name__, id(x)),))
        return str(x)
    f = type(x).__str__
    if isinstance(f, types.FunctionType):
        return f(x)
    if deep_sym(x):
        return SymStr((Piece('repr', deep_key(x)),))
    if f is object.__str__ and isinstance(type(x).__repr__, types.FunctionType):
        return type(x).__repr__(x)
    return str(x)


def to_repr(x):
    if not deep_sym(x):
        if isinstance(type(x).__repr__, types.FunctionType):
            return type(x).__repr__(x)
        return repr(x)
    if isinstance_t(x, NUM):
        return x.text()
    return SymStr((Piece('repr', deep_key(x)),))


def deep_key(x):
    if isinstance_t(x, (Lazy,)):
        x = x.force()
    if type(x) is str:
        return ('s',) + tuple(x)
    if isinstance_t(x, (SymStr,)):
        return ('s',) + norm_key(x.c)
    if isinstance_t(x, (SymNum,)):
        return ('n', norm_key(x.d), x.scale, x.isint)
    if isinstance_t(x, (OpaqueNum,)):
        return ('o', x.key)
    if isinstance_t(x, (LinInt,)):
        return ('l', x.base, x.off)
    if isinstance_t(x, (Model,)):
        return ('m', x.modelkey())
    if isinstance(x, dict):
        return ('d',) + tuple((deep_key(k), deep_key(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(deep_key(v) for v in x)
    return ('c', repr(x))


def fstring(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114 or conv == 97:
            v = to_repr(v)
        elif conv == 115:
            v = to_str(v)
        out.append(py_format(v, spec))
    if any(type(x) is not str for x in out):
        return concat(*out)
    return ''.join(out)


_formatter = __import__('string').Formatter()


def str_format(fmt, a, k):
    out = []
    auto = 0
    for lit, name, spec, conv in _formatter.parse(fmt):
        if lit:
            out.append(lit)
        if name is None:
            continue
        first, rest = __import__('_string').formatter_field_name_split(name)
        if first == '':
            first = auto
            auto += 1
        v = a[first] if type(first) is int else k[first]
        for isattr, n in rest:
            v = getattr(v, n) if isattr else getitem(v, n)
        if '{' in spec:
            spec = str_format(spec, a, k)
        if conv == 'r' or conv == 'a':
            v = to_repr(v)
        elif conv == 's':
            v = to_str(v)
        out.append(py_format(v, spec))
    return concat(*out) if any(type(x) is not str for x in out) else ''.join(out)


_PCT = _re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\d*)(?:\.(\d+))?([srdifgxXeEc%])')


def str_mod(fmt, args):
    if not deep_sym(args) and type(fmt) is str:
        return fmt % args
    if type(fmt) is not str:
        raise Unsupported('symbolic % format')
    if not isinstance(args, (tuple, dict)) or is_sym(args):
        args = (args,)
    out = []
    pos = 0
    i = 0
    for m in _PCT.finditer(fmt):
        if '%' in fmt[pos:m.start()]:
            raise Unsupported('%% format %r' % fmt)
        out.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, typ = m.groups()
        if typ == '%':
            out.append('%')
            continue
        if key:
            v = args[key]
        else:
            if i >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[i]
            i += 1
        if not is_sym(v):
            out.append(('%' + flags + width + ('.' + prec if prec else '') + typ) % (to_str(v) if typ == 's' else v,))
            continue
        if typ == 's':
            t = to_str(v)
            if prec:
                t = mk(chars_of(t)[:int(prec)])
        elif typ in 'di':
            if isinstance_t(v, STR):
                raise TypeError('%d format: a real number is required, not str')
            t = py_format(v, 'd') if not isinstance_t(v, (SymNum,)) or v.isint else py_int(v).text()
        elif typ == 'f':
            if isinstance_t(v, STR):
                raise TypeError('must be real number, not str')
            t = py_format(v, '.%sf' % (prec or '6'))
        elif typ == 'r':
            t = to_repr(v)
        else:
            raise Unsupported('%% format %r' % m.group())
        if width:
            t = fmt_align(t, '<' if '-' in flags else '>', int(width), '0' if '0' in flags and '-' not in flags and typ != 's' else ' ')
        out.append(t)
    if '%' in fmt[pos:]:
        raise Unsupported('%% format %r' % fmt)
    if type(args) is tuple and i < len(args):
        raise TypeError('not all arguments converted during string formatting')
    out.append(fmt[pos:])
    return concat(*out)


def str_join(sep, it):
    xs = list(it)
    out = []
    for i, x in enumerate(xs):
        if not isinstance(x, str):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(x).__name__))
        if i:
            out.append(sep)
        out.append(x)
    return concat(*out)


# ---------------------------------------------------------------- conversions
_INT_OK = None


def _numeric_chars(kind):
    CS = sym.CS
    ok = CS.DECIMAL | CS.SPACE | CS.of('_+-')
    if kind == 'float':
        ok |= CS.of('.eEinfINFtyTYaA')
    return ok


def parse_num(s, kind):
    """int(text) / float(text): exact when the text is made of decimal digits
    (surrounded by whitespace), a definite ValueError when a character can
    occur in no literal, otherwise either outcome (recorded as approximate)"""
    CS = sym.CS
    if isinstance_t(s, (Lazy,)):
        s = s.force()
    c = chars_of(s)
    if any(type(x) is Piece for x in c):
        sym.CTX.approx.append('%s() of an opaque text' % kind)
        if not sym.CTX.predicate(('is a literal', kind, norm_key(c))):
            raise ValueError('invalid literal')
        return OpaqueNum(kind, norm_key(c))
    alld = bool(c)
    for x in c:
        if not ch_test(x, CS.DECIMAL):
            alld = False
            break
    if not alld:
        for x in c:
            if not ch_test(x, _numeric_chars(kind)):
                raise ValueError('invalid literal for %s()' % kind)
        b = 0
        while b < len(c) and ch_test(c[b], CS.SPACE):
            b += 1
        e = len(c)
        while e > b and ch_test(c[e - 1], CS.SPACE):
            e -= 1
        c = c[b:e]
        if not c:
            raise ValueError('invalid literal for %s()' % kind)
        alld = True
        for x in c:
            if not ch_test(x, CS.DECIMAL):
                alld = False
                break
    if alld and len(c) <= 15:
        d = []
        for x in c:
            if type(x) is str:
                d.append(CS.apply('dig', x))
            elif x.map is None:
                d.append(V(x.var, 'dig'))
            else:
                d.append(x)
        n = SymNum(d, 0, kind == 'int')
        if all(type(x) is str for x in d):
            return int(''.join(d)) if kind == 'int' else float(''.join(d))
        return n
    if all(type(x) is str for x in c):
        return (int if kind == 'int' else float)(''.join(c))
    sym.CTX.approx.append('%s() of a text that is not all digits' % kind)
    if not sym.CTX.predicate(('is a literal', kind, norm_key(c))):
        raise ValueError('invalid literal for %s()' % kind)
    return OpaqueNum(kind, norm_key(c))


def py_int(x=0, *base):
    if isinstance_t(x, STR):
        if base and base[0] != 10:
            raise Unsupported('int() with base')
        return parse_num(x, 'int')
    if isinstance_t(x, (SymNum,)):
        if x.isint:
            return x
        if x.scale == 0:
            return SymNum(x.d, 0, True)
        return SymNum(x.d[:-x.scale] or ('0',), 0, True)
    if isinstance_t(x, (OpaqueNum,)):
        # int(float('nan')) raises ValueError, int(inf) OverflowError
        if 'float' in x.key:
            if sym.CTX.predicate(('nan', x.key)):
                raise ValueError('cannot convert float NaN to integer')
            if sym.CTX.predicate(('inf', x.key)):
                raise OverflowError('cannot convert float infinity to integer')
            sym.CTX.approx.append('int() of an opaque number')
        return x._op('int', 0) if 'float' not in x.key else OpaqueNum('int', x.key)
    if isinstance_t(x, (LinInt,)):
        return x
    return int(x, *base)


def py_float(x=0.0):
    if isinstance_t(x, STR):
        return parse_num(x, 'float')
    if isinstance_t(x, (SymNum,)):
        return SymNum(x.d, x.scale, False)
    if isinstance_t(x, (OpaqueNum,)):
        return OpaqueNum('float', x.key)
    return float(x)


def py_chr(x):
    if isinstance_t(x, (SymOrd,)):
        return mk((x.ch,))
    if is_sym(x):
        raise Unsupported('chr of a symbolic number')
    return chr(x)


def py_len(x):
    if isinstance_t(x, (LongStr,)):
        return x.symlen()
    if isinstance_t(x, (SymLines, Model)) and hasattr(type(x), 'symlen'):
        return x.symlen()
    return len(x)


def py_ord(x):
    if isinstance_t(x, STR):
        c = chars_of(x)
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        if type(c[0]) is Piece:
            raise Unsupported('ord of an opaque text')
        return SymOrd(c[0])
    return ord(x)


# ---------------------------------------------------------------- containers
def key_eq(a, b):
    """equality of dict keys, one possibly symbolic"""
    if isinstance(a, str) and isinstance(b, str):
        return sym.s_eq(a, b)
    if is_sym(a) or is_sym(b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(key_eq(x, y) for x, y in zip(a, b))
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(key_eq(x, y) for x, y in zip(a, b))
    return a == b


def dict_find(d, k):
    """(found, value)"""
    for (dd, kk, vv) in sym.CTX.side.get(id(d), ()):
        if key_eq(kk, k):
            return True, vv
    if not deep_sym(k):
        return (True, dict.__getitem__(d, k)) if dict.__contains__(d, k) else (False, None)
    if isinstance_t(k, (Lazy,)):
        k = k.force()
    for kk in list(dict.keys(d)):
        if key_eq(k, kk):
            return True, dict.__getitem__(d, kk)
    return False, None


def side_set(d, k, v):
    l = sym.CTX.side.setdefault(id(d), [])
    for i, (dd, kk, vv) in enumerate(l):
        if key_eq(kk, k):
            l[i] = (d, kk, v)
            return
    for kk in list(dict.keys(d)):
        if key_eq(k, kk):
            dict.__setitem__(d, kk, v)
            return
    l.append((d, k, v))


def has_side(d):
    return bool(sym.CTX.side.get(id(d)))


def plain(o):
    """the dict behind a read-only view of one, or behind an Enum class"""
    t = type(o)
    if t is types.MappingProxyType:
        r = gc.get_referents(o)
        if len(r) == 1 and isinstance(r[0], dict):
            return r[0]
    elif t is enum.EnumMeta:
        return o._member_map_
    return o


def chained(o, x):
    """(found, value) in a ChainMap or UserDict"""
    for d in (o.maps if isinstance(o, collections.ChainMap) else [o.data]):
        d = plain(d)
        if not isinstance(d, dict) or is_sym(d):
            raise Unsupported('ChainMap over something else than dicts')
        ok, v = dict_find(d, x)
        if ok:
            return True, v
    return False, None


def getitem(o, i):
    if type(o) in (types.MappingProxyType, enum.EnumMeta):
        o = plain(o)
    if type(o) in (collections.ChainMap, collections.UserDict) and deep_sym(i):
        ok, v = chained(o, i)
        if ok:
            return v
        raise KeyError(i)
    if isinstance(o, dict) and not is_sym(o):
        if deep_sym(i) or has_side(o):
            ok, v = dict_find(o, i)
            if ok:
                return v
            if isinstance(o, collections.defaultdict) and o.default_factory is not None:
                v = call(o.default_factory)
                side_set(o, i, v)
                sym.CTX.defaulted.add(id(o))
                return v
            m = getattr(type(o), '__missing__', None)
            if m is not None and not isinstance(o, collections.defaultdict):
                return m(o, i)
            raise KeyError(i)
        return o[i]
    if isinstance_t(i, (SymNum,)):
        i = i.concrete_int()
    if isinstance_t(i, (LinInt,)) and isinstance_t(o, (SymLines,)):
        return o.at(i)
    if isinstance_t(i, (LinInt, OpaqueNum)):
        raise Unsupported('subscript with an unbounded integer')
    if type(i) is slice:
        s = []
        for k in (i.start, i.stop, i.step):
            if isinstance_t(k, (SymNum,)):
                k = k.concrete_int()
            s.append(k)
        i = slice(*s)
    return o[i]


def setitem(o, i, v):
    if isinstance(o, dict) and (deep_sym(i) or has_side(o)) and not is_sym(o):
        if not deep_sym(i):
            l = sym.CTX.side.get(id(o), [])
            for j, (dd, kk, vv) in enumerate(l):
                if key_eq(kk, i):
                    l[j] = (o, kk, v)
                    return
            o[i] = v
            return
        side_set(o, i, v)
        return
    if isinstance_t(i, (SymNum,)):
        i = i.concrete_int()
    o[i] = v


CONTAINS_LOG = set()     # dicts whose membership / iteration was observed


def contains(x, o):
    if type(o) is types.MappingProxyType:
        o = plain(o)
    if type(o) is enum.EnumMeta and deep_sym(x):
        return any(key_eq(x, y) for y in o._value2member_map_)
    if type(o) in (collections.ChainMap, collections.UserDict) and deep_sym(x):
        return chained(o, x)[0]
    if isinstance(o, str):
        if type(o) is str and type(x) is str:
            return x in o
        return sym.s_contains(o, x)
    if isinstance(o, dict) and not is_sym(o):
        CONTAINS_LOG.add(id(o))
        if deep_sym(x) or has_side(o):
            return dict_find(o, x)[0]
        return x in o
    if type(o) in (set, frozenset) and deep_sym(x):
        for y in sorted(o, key=repr):
            if key_eq(x, y):
                return True
        return False
    if type(o) in (type({}.keys()),) and deep_sym(x):
        for y in list(o):
            if key_eq(x, y):
                return True
        return False
    return x in o


# ---------------------------------------------------------------- output
ERR = '\0stderr: '       # marks what goes to standard error


def emit(text):
    sym.CTX.events.append(('out', text))


def py_print(*a, sep=' ', end='\n', file=None, flush=False):
    sep = ' ' if sep is None else sep
    end = '\n' if end is None else end
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(sep)
        parts.append(to_str(x))
    parts.append(end)
    t = concat(*parts)
    if file is None or isinstance_t(file, (StdOut,)):
        emit(t)
    elif isinstance_t(file, (SymStringIO,)):
        file.write(t)
    elif file is sys.stderr or isinstance_t(file, (StdErr,)):
        emit(concat(ERR, t))
    else:
        raise Unsupported('print to a file')


class StdOut(Model):
    def write(self, t):
        emit(t)
        return None

    def flush(self):
        pass

    def text(self):
        return '<stdout>'


class StdErr(Model):
    def write(self, t):
        emit(concat(ERR, t))

    def flush(self):
        pass


STDOUT, STDERR = StdOut(), StdErr()


class SymStringIO(Model):
    def __init__(self, initial='', newline='\n'):
        self.parts = [initial] if chars_of(initial) else []
        if chars_of(initial):
            raise Unsupported('StringIO with initial value')

    def write(self, t):
        if not isinstance(t, str):
            raise TypeError("string argument expected, got '%s'" % type(t).__name__)
        self.parts.append(t)
        return None

    def writelines(self, ts):
        for t in ts:
            self.write(t)

    def getvalue(self):
        return concat(*self.parts) if self.parts else ''

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class TableModel(Model):
    """prettytable.PrettyTable: the rendered text is a function of header,
    alignment and rows"""

    def __init__(self, field_names=None, **kw):
        self.field_names = list(field_names) if field_names is not None else None
        self.opts = dict(kw)
        self.rows_ = []
        self._align = kw.pop('align', None)

    def __setattr__(self, n, v):
        if n in ('field_names', 'opts', 'rows_', '_align'):
            object.__setattr__(self, n, v)
        elif n == 'align':
            object.__setattr__(self, '_align', v if type(v) is str else dict(v) if isinstance(v, dict) else v)
        else:
            self.opts[n] = v

    @property
    def align(self):
        a = self._align
        if a is None or isinstance(a, str):
            a = {f: (a or 'c') for f in (self.field_names or ())}
            object.__setattr__(self, '_align', a)
        return a

    @property
    def rows(self):
        return [list(r) for r in self.rows_]

    def add_row(self, row, divider=False):
        row = list(row)
        if self.field_names and len(row) != len(self.field_names):
            raise ValueError('Row has incorrect number of values, (actual) %d!=%d (expected)' %
                             (len(row), len(self.field_names)))
        if divider:
            raise Unsupported('PrettyTable divider')
        self.rows_.append(row)

    def add_rows(self, rows):
        for r in rows:
            self.add_row(r)

    def get_string(self, **kw):
        if kw:
            raise Unsupported('PrettyTable.get_string options')
        return self.text()

    def header(self):
        a = self._align
        names = tuple(self.field_names or ())
        if a is None or isinstance(a, str):
            al = tuple((a or 'c') for _ in names)
        else:
            al = tuple(a.get(n, 'c') for n in names)
        return (names, al, tuple(sorted((k, repr(v)) for k, v in self.opts.items() if k != 'align')))

    def text(self):
        return SymStr((Piece('table', self.header(), tuple(tuple(deep_key(to_str(v)) for v in r) for r in self.rows_)),))

    def modelkey(self):
        return self.text().c[0].key

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('PrettyTable.%s' % n)


def pretty_table(*a, **k):
    return TableModel(*a, **k)


def colored(text, *a, **k):
    if deep_sym((a, k)):
        raise Unsupported('symbolic colour')
    return concat(SymStr((Piece('color-on', repr(a), repr(sorted(k.items()))),)), to_str(text),
                  SymStr((Piece('color-off', repr(a), repr(sorted(k.items()))),)))


JSONTAB = {}


def json_dumps(o, **kw):
    if not deep_sym(o):
        return json.dumps(o, **kw)
    if kw.get('default') or kw.get('cls'):
        raise Unsupported('json.dumps with hooks')

    def jkey(x):
        if isinstance(x, dict):
            for k in x:
                if not isinstance(k, (str, int, float, bool, type(None))):
                    raise TypeError('keys must be str, int, float, bool or None')
            it = list(x.items())
            if kw.get('sort_keys'):
                it.sort(key=lambda p: p[0])
            return ('d',) + tuple((k, jkey(v)) for k, v in it)
        if isinstance(x, (list, tuple)):
            return ('l',) + tuple(jkey(v) for v in x)
        if isinstance(x, str) or isinstance_t(x, NUM) or x is None or isinstance(x, (int, float, bool)):
            return deep_key(x)
        raise TypeError('Object of type %s is not JSON serializable' % type(x).__name__)
    p = Piece('json', jkey(o), tuple(sorted((k, repr(v)) for k, v in kw.items())))
    JSONTAB[p.key] = (copy_tree(o), dict(kw))
    return SymStr((p,))


def copy_tree(o):
    if isinstance(o, dict):
        return {k: copy_tree(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [copy_tree(v) for v in o]
    return o


def json_loads(s, **kw):
    if isinstance_t(s, (SymStr,)):
        if len(s.c) == 1 and type(s.c[0]) is Piece and s.c[0].key in JSONTAB and not kw:
            return copy_tree(JSONTAB[s.c[0].key][0])
        raise Unsupported('json.loads of a symbolic text')
    return json.loads(s, **kw)


class Exited(Exception):
    """stands for SystemExit raised by exit()"""


def py_exit(*a):
    raise SystemExit(*a)


# ---------------------------------------------------------------- files (see files.py)
class SymLines(Model):
    pass


class SymFiles(Model):
    pass


FILES = None        # the file system model of the current harness


LOADING = False


def py_open(path, mode='r', *a, **k):
    if LOADING:
        return open(path, mode, *a, **k)
    if FILES is None:
        raise Unsupported('open() outside a file harness')
    return FILES.open(path, mode, *a, **k)


def os_model(name):
    def f(*a, **k):
        if LOADING:
            return (getattr(os.path, name, None) or getattr(os, name))(*a, **k)
        if FILES is None:
            raise Unsupported('os.%s outside a file harness' % name)
        return getattr(FILES, name)(*a, **k)
    return f


# ---------------------------------------------------------------- calls
def texts(it):
    return type(it).__name__ == 'Texts'


def m_map(f, *its):
    if len(its) == 1 and texts(its[0]):
        return files().TextsGen(call(f, x) for x in its[0].walk())
    if len(its) == 1 and isinstance_t(its[0], (SymLines,)):
        return files().Picked(its[0], 'map', lambda it: (call(f, x) for x in it.loop('map', {}, (), ())), False)
    return (call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    if texts(it):
        return files().TextsGen(x for x in it.walk() if (x if f is None else call(f, x)))
    if isinstance_t(it, (SymLines,)):
        return files().Picked(it, 'filter', lambda it: (
            x for x in it.loop('filter', {}, (), ()) if (x if f is None else call(f, x))), False)
    return (x for x in it if (x if f is None else call(f, x)))


def m_starmap(f, it):
    return (call(f, *xs) for xs in it)


def m_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


def m_str(*a, **k):
    if not a:
        return ''
    if len(a) > 1:
        return str(*a, **k)
    return to_str(a[0])


def m_type(*a):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    return type(*a)


def m_bool(x=False):
    return True if x else False


def m_isinstance(x, t):
    return isinstance(x, t)


def m_sorted(it, *, key=None, reverse=False):
    if isinstance_t(it, (SymLines,)):
        if getattr(it, 'anyorder', False):      # nothing is promised about the order
            return it.eager()
        raise Unsupported('sorting of lines')
    it = list(it)
    ks = [call(key, x) if key else x for x in it]
    if any(deep_sym(k) for k in ks):
        raise Unsupported('sorting by a symbolic key')
    idx = sorted(range(len(it)), key=lambda i: ks[i], reverse=reverse)
    return [it[i] for i in idx]


def m_round(x, n=None):
    if isinstance_t(x, (SymNum,)):
        return round(x.concrete(), n) if n is not None else round(x.concrete())
    if isinstance_t(x, (OpaqueNum,)):
        return x._op('round', n)
    return round(x, n) if n is not None else round(x)


def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def m_minmax(f):
    def g(*a, key=None, default=None):
        xs = list(a[0]) if len(a) == 1 else list(a)
        ks = [call(key, x) if key else x for x in xs]
        if any(deep_sym(k) for k in ks):
            raise Unsupported('min/max of symbolic values')
        if not xs:
            if default is not None:
                return default
            return f(xs)
        b = f(range(len(xs)), key=lambda i: ks[i])
        return xs[b]
    return g


def m_hash(x):
    if deep_sym(x):
        raise Unsupported('hash')
    return hash(x)


def m_getattr(o, n, *d):
    if is_sym(n):
        raise Unsupported('getattr with a symbolic name')
    return getattr(o, n, *d)


def m_any(it):
    for x in (it.it if type(it).__name__ == 'TextsGen' else it):
        if x:
            return True
    return False


def m_all(it):
    for x in (it.it if type(it).__name__ == 'TextsGen' else it):
        if not x:
            return False
    return True


def m_iter(x, *a):
    if a:
        s = getattr(x, '__self__', None)
        if isinstance_t(s, (SymLines,)) and x.__name__ == 'readline' and a == ('',):
            return s.readlines()
        return iter(lambda: call(x), *a)
    if isinstance_t(x, (SymLines,)):
        return x
    return iter(x)


def m_list(t):
    def f(*a):
        if a and isinstance_t(a[0], (SymLines,)):
            return a[0].eager()
        if a and t is list and texts(a[0]):
            return a[0]
        return t(*a)
    return f


def m_enumerate(it, start=0):
    if isinstance_t(it, (SymLines,)):
        return files().Pairs(it, start)
    return enumerate(it, start)


def m_range(*a):
    if any(isinstance_t(x, (LinInt,)) for x in a):
        x = a[-1] if len(a) == 1 or a[0] == 0 and len(a) == 2 else None
        if isinstance_t(x, (LinInt,)) and x.base == 'total' and x.off == 0:
            j = FILES.job
            return files().Range(j, j.source)
        raise Unsupported('range of an unbounded integer')
    return range(*a)


def files():
    import files
    return files


def m_dict(*a, **k):
    d = {}
    if a:
        src = a[0]
        if isinstance(src, dict):
            d.update(src)
            if has_side(src):
                sym.CTX.side[id(d)] = [(d, kk, vv) for (_, kk, vv) in sym.CTX.side[id(src)]]
                _KEEP.append(d)
        else:
            for kk, vv in src:
                setitem(d, kk, vv)
    d.update(k)
    return d


_KEEP = []


def m_abs(x):
    if type(x) is SymNum:
        return x
    if type(x) is OpaqueNum:
        return x.__abs__()
    if deep_sym(x):
        raise Unsupported('abs of a symbolic value')
    return abs(x)


MODELS = {
    print: py_print, len: py_len, int: py_int, float: py_float, str: m_str, ord: py_ord, chr: py_chr,
    repr: to_repr, ascii: to_repr, format: py_format, bool: m_bool, type: m_type,
    map: m_map, filter: m_filter, sorted: m_sorted, round: m_round, sum: m_sum,
    min: m_minmax(min), max: m_minmax(max), all: m_all, any: m_any, hash: m_hash,
    getattr: m_getattr, dict: m_dict, iter: m_iter, list: m_list(list), tuple: m_list(tuple), enumerate: m_enumerate,
    range: m_range, open: py_open, io.open: py_open, io.StringIO: SymStringIO,
    json.dumps: json_dumps, json.loads: json_loads, functools.reduce: m_reduce,
    itertools.starmap: m_starmap, sys.exit: py_exit,
    os.scandir: os_model('scandir'), os.listdir: os_model('listdir'), os.path.join: os_model('join'),
    os.path.isfile: os_model('isfile'), os.path.isdir: os_model('isdir'), os.path.exists: os_model('exists'),
    os.fspath: os_model('fspath'),
    operator.contains: lambda a, b: contains(b, a), operator.getitem: getitem,
    operator.eq: lambda a, b: a == b, operator.ne: lambda a, b: a != b, operator.add: lambda a, b: a + b,
    operator.setitem: setitem,
    abs: lambda x: m_abs(x),
    divmod: lambda a, b: (a // b, a % b) if deep_sym((a, b)) else divmod(a, b),
    operator.sub: lambda a, b: a - b, operator.mul: lambda a, b: a * b, operator.truediv: lambda a, b: a / b,
    operator.floordiv: lambda a, b: a // b, operator.mod: lambda a, b: mod(a, b), operator.lt: lambda a, b: a < b, operator.le: lambda a, b: a <= b,
    operator.gt: lambda a, b: a > b, operator.ge: lambda a, b: a >= b, operator.not_: lambda a: not a,
    operator.truth: m_bool, operator.concat: lambda a, b: a + b, operator.length_hint: py_len,
}
for _n in regex.METHODS:
    MODELS[getattr(_re, _n)] = regex.function(_n)
for _n in ('exit', 'quit'):
    if hasattr(builtins, _n):
        try:
            MODELS[getattr(builtins, _n)] = py_exit
        except TypeError:
            pass

# C functions that handle symbolic elements generically (they only move
# references, test truth, iterate, or use == )
GENERIC = {isinstance, issubclass, callable, id, iter, next, enumerate, zip, list, tuple, reversed, range, setattr,
           hasattr, delattr, vars, super, object, staticmethod, classmethod, property, slice, set, frozenset,
           itertools.chain, itertools.repeat, itertools.count, itertools.islice, itertools.zip_longest,
           itertools.takewhile, itertools.dropwhile, itertools.product, itertools.accumulate,
           collections.OrderedDict, collections.deque, functools.partial, collections.defaultdict,
           itertools.chain.from_iterable, itertools.cycle}

STUBS = {}         # function object -> replacement (contract abstraction)
PKG_PREFIX = ('arinc424',)
STABLE = set()     # objects of the package that the frame check covers
FUNCS = set()      # functions of the package that were executed, by name


def call(f, /, *a, **k):
    ctx = sym.CTX
    if ctx is not None:
        ctx.steps += 1
        if ctx.steps > MAXSTEPS:
            raise Unsupported('step budget')
    t = type(f)
    if STUBS:
        g = f.__func__ if t is types.MethodType else f
        try:
            s = STUBS.get(g)
        except TypeError:
            s = None
        if s is not None:
            r = s(f, *a, **k)
            if r is not NotImplemented:
                return r
    if t is types.FunctionType:
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if not (f.__module__ or '').startswith(PKG_PREFIX + ('vspec', 'rt', 'sym')) and deep_sym((a, k)):
            return library(f, a, k)
        FUNCS.add(f.__code__)
        return f(*a, **k)
    if t is types.MethodType:
        if type(f.__self__) in (collections.ChainMap, collections.UserDict) and f.__name__ == 'get' and deep_sym(a):
            ok, v = chained(f.__self__, a[0])
            return v if ok else (a[1] if len(a) > 1 else k.get('default'))
        if isinstance(f.__func__, types.FunctionType):
            FUNCS.add(f.__func__.__code__)
            return f(*a, **k)
        return call(f.__func__, f.__self__, *a, **k)
    if t is operator.itemgetter and deep_sym(a):
        x, keys = a[0], f.__reduce__()[1]
        return getitem(x, keys[0]) if len(keys) == 1 else tuple(getitem(x, i) for i in keys)
    if t is operator.methodcaller and deep_sym(a):
        r = f.__reduce__()
        n, args = (r[1][0], r[1][1:]) if r[0] is operator.methodcaller else (r[0].args[0], r[1])
        return call(getattr(a[0], n), *args, **({} if r[0] is operator.methodcaller else r[0].keywords))
    if t is operator.attrgetter:
        out = []
        for n in f.__reduce__()[1]:
            x = a[0]
            for m in n.split('.'):
                x = call(getattr, x, m)
            out.append(x)
        return out[0] if len(out) == 1 else tuple(out)
    if t is functools.partial:
        kw = dict(f.keywords)
        kw.update(k)
        return call(f.func, *f.args, *a, **kw)
    if t is functools._lru_cache_wrapper:
        # a memo table never changes the result of a function of immutable
        # arguments; the wrapped function is what is verified
        for x in list(a) + list(k.values()):
            if not (isinstance(x, (str, int, float, bool, tuple, type(None), type, types.FunctionType))
                    or id(x) in STABLE):
                raise Unsupported('memo table over an object that can change')
        n = len(ctx.events) if ctx is not None else 0
        v = call(f.__wrapped__, *a, **k)
        if ctx is not None:
            if len(ctx.events) != n:
                raise Unsupported('memo table over a function that prints')
            if not (is_sym(v) or isinstance(v, (str, int, float, bool, type(None), type, types.FunctionType))):
                ctx.memo.append((v, files().freeze(v)))     # shared by all calls: must stay as it is
        return v
    if isinstance(f, type):
        if issubclass(f, pathlib.PurePath) and not LOADING and FILES is not None and len(a) == 1:
            return files().PathModel(a[0])
        if f is str or f in MODELS:
            m = MODELS.get(f)
            return m(*a, **k)
        if issubclass(f, EngineStop):
            return f(*a, **k)
        if issubclass(f, BaseException):
            return f(*a, **k)
        if type(f) is enum.EnumMeta and len(a) == 1 and not k and deep_sym(a):
            for y, m in f._value2member_map_.items():
                if key_eq(a[0], y):
                    return m
            m = f._missing_(a[0])
            if m is None:
                raise ValueError('not a valid ' + f.__qualname__)
            return m
        mod = getattr(f, '__module__', '')
        if f in GENERIC or mod not in ('builtins', 'collections', 'itertools', 'functools'):
            # classes written in Python run as they are; the constructor body is
            # instrumented when it belongs to the package
            if mod.startswith(PKG_PREFIX) or f in GENERIC or not deep_sym((a, k)) or pythonic(f):
                return f(*a, **k)
            raise Unsupported('constructor %s with symbolic arguments' % f.__name__)
        if deep_sym((a, k)):
            raise Unsupported('constructor %s with symbolic arguments' % f.__name__)
        return f(*a, **k)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if t is types.BuiltinMethodType and f.__self__ is not None and type(f.__self__) is not types.ModuleType:
        return bound_builtin(f, a, k)
    if t is types.MethodWrapperType:      # x.__contains__ and friends
        return bound_builtin(f, a, k)
    if t in (types.MethodDescriptorType, types.WrapperDescriptorType) and a:
        if is_sym(a[0]):
            return call(getattr(a[0], f.__name__), *a[1:], **k)
        if deep_sym((a, k)):
            return bound_builtin(getattr(a[0], f.__name__), a[1:], k)
        return f(*a, **k)
    if not deep_sym((a, k)):
        return f(*a, **k)
    if f in GENERIC_OK(f):
        return f(*a, **k)
    if hasattr(t, '__call__') and isinstance(getattr(t, '__call__'), types.FunctionType):
        return f(*a, **k)
    if t in (operator.itemgetter, operator.attrgetter):
        if t is operator.attrgetter:
            return f(*a, **k)
        _, items = f.__reduce__()
        r = tuple(getitem(a[0], i) for i in items)
        return r if len(items) > 1 else r[0]
    if t is operator.methodcaller:
        _, items = f.__reduce__()
        if type(items) is tuple and items and type(items[0]) is str:
            return call(getattr(a[0], items[0]), *items[1:])
    raise Unsupported('call of %r with symbolic arguments' % (getattr(f, '__qualname__', f),))


def library(f, a, k):
    """a Python function of a library, not instrumented"""
    if (f.__module__ or '').startswith(('dataclasses', 'contextlib', 'collections', 'typing', 'explore', 'files')):
        return f(*a, **k)
    raise Unsupported('library function %s.%s with symbolic arguments' % (f.__module__, f.__qualname__))


def GENERIC_OK(f):
    try:
        return GENERIC if f in GENERIC else ()
    except TypeError:
        return ()


def pythonic(cls):
    return isinstance(cls.__init__, types.FunctionType) or dataclass_like(cls)


def dataclass_like(cls):
    return hasattr(cls, '__dataclass_fields__') or (issubclass(cls, tuple) and hasattr(cls, '_fields'))


def bound_builtin(f, a, k):
    s = f.__self__
    n = f.__name__
    if isinstance(s, str) and type(s) is str:
        if n == 'join' and len(a) == 1 and type(a[0]) not in (list, tuple, set, frozenset, str):
            a = (list(a[0]),)       # an iterator may give symbolic texts
        if not deep_sym((a, k)):
            return f(*a, **k)
        if n == 'format':
            return str_format(s, a, k)
        if n == 'format_map':
            return str_format(s, (), a[0])
        if n == 'join':
            return str_join(s, a[0])
        if n == '__contains__':
            return contains(a[0], s)
        if n == '__mod__':
            return str_mod(s, a[0])
        return getattr(SymStr(tuple(s)), n)(*a, **k)
    if isinstance(s, dict):
        if n in ('get', 'pop', 'setdefault', '__contains__', '__getitem__', '__setitem__', 'update', 'copy',
                 'items', 'keys', 'values', '__missing__'):
            if n in ('items', 'keys', 'values', 'copy', 'get', '__contains__'):
                CONTAINS_LOG.add(id(s))
            symk = bool(a) and n != 'update' and deep_sym(a[0])
            if not symk and not has_side(s):
                if n == 'update' and a and not isinstance(a[0], dict):
                    for kk, vv in a[0]:
                        setitem(s, kk, vv)
                    s.update(k)
                    return None
                return f(*a, **k)
            if n == 'get':
                ok, v = dict_find(s, a[0])
                return v if ok else (a[1] if len(a) > 1 else k.get('default'))
            if n == '__contains__':
                return dict_find(s, a[0])[0]
            if n == '__getitem__':
                return getitem(s, a[0])
            if n == '__setitem__':
                return setitem(s, a[0], a[1])
            if n == 'setdefault':
                ok, v = dict_find(s, a[0])
                if ok:
                    return v
                v = a[1] if len(a) > 1 else None
                side_set(s, a[0], v)
                return v
            raise Unsupported('dict.%s with a symbolic key' % n)
        return f(*a, **k)
    if type(s) is types.MappingProxyType and n in ('get', '__contains__', '__getitem__'):
        return bound_builtin(getattr(plain(s), n), a, k)
    if type(s) in (list, tuple, collections.deque, types.GeneratorType) or n in ('__next__', '__iter__', '__len__', '__eq__', '__ne__'):
        if n == 'sort' and deep_sym(s):
            raise Unsupported('list.sort of symbolic values')
        return f(*a, **k)
    if type(s) in (set, frozenset):
        if deep_sym(a):
            if n in ('__contains__',):
                return contains(a[0], s)
            raise Unsupported('set.%s with a symbolic element' % n)
        return f(*a, **k)
    if isinstance(s, type) and n in ('fromkeys',):
        if deep_sym(a[0] if a else ()):
            raise Unsupported('dict.fromkeys with symbolic keys')
        return f(*a, **k)
    if isinstance(s, type) or n in ('__init__', '__setattr__', '__getattribute__', '__new__', '__delattr__'):
        return f(*a, **k)
    if isinstance(s, _re.Pattern) and deep_sym((a, k)):
        return regex.method(s, n, a, k)
    if deep_sym((a, k)):
        raise Unsupported('%s.%s with symbolic arguments' % (type(s).__name__, n))
    return f(*a, **k)


def is_consumer(f):
    return f is list or f is tuple or f is collections.deque


def mod(a, b):
    if type(a) is str:
        return str_mod(a, b)
    return a % b


def imod(a, b):
    return mod(a, b)


# ---------------------------------------------------------------- loops
LOOP = None      # installed by files.py: object with iter/havoc/exit


def loop_iter(site, it, loc, names, targets):
    if isinstance_t(it, (SymLines,)):
        return it.loop(site, loc, names, targets)
    if texts(it):
        return it.walk()
    if type(it).__name__ == 'TextsGen':
        return it.it
    if LOOP is not None and type(it) is types.GeneratorType and sym.CTX is not None:
        return files().drive(it, site, loc, names, targets, sys._getframe().f_back)
    return it


def while_head(site, loc, names, reads):
    return LOOP.while_head(site, loc, names, sys._getframe().f_back, reads)


def unbounded(it, acc):
    """is the list acc, empty so far, going to have an element for each element of a sequence of unknown length?"""
    return isinstance_t(it, (SymLines,)) and type(acc) is list and not acc


def list_comp(site, it, one, all):
    """[.. for x in it if ..]; one(it) gives the elements one by one"""
    if isinstance_t(it, (SymLines,)):
        return files().Picked(it, site, one, True)
    if texts(it):
        return it.listed(one)
    return all(it)


def gen_exp(site, it, one, all):
    if isinstance_t(it, (SymLines,)):
        return files().Picked(it, site, one, False)
    if texts(it):
        return files().TextsGen(all(it.walk()))
    return all(it)


def loop_head(site, loc):
    return LOOP.head(site, loc)


def loop_exit(site, loc):
    return LOOP.exit(site, loc)


def mkslice(a, b, c):
    return slice(a, b, c)


def setitem3(v, o, i):
    setitem(o, i, v)


def guard_current():
    guard(sys.exc_info()[1])


def guard(e):
    """re-raise engine exceptions caught by a bare except"""
    if isinstance(e, EngineStop):
        raise e
