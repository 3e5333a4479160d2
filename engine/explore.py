"""Path exploration: every path of a harness over the real code, by
re-execution under a decision prefix, spread over processes."""
import dis
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import types

import sym
import rt
from sym import (Ctx, EngineStop, Unsupported, Infeasible, CutPath, SymStr, Lazy, LongStr, V, Piece, mk, chars_of,
                 forall_paths, isinstance_t)
from heap import Heap

MAXBODY = 172


class Failed(Exception):
    pass


class Outcome:
    """what a call did"""

    def __init__(self, kind, value, out):
        self.kind = kind        # 'return' or 'raise'
        self.value = value
        self.out = out          # texts written to standard output, in order
        self.returned = kind == 'return'

    def raised(self, t):
        return self.kind == 'raise' and isinstance(self.value, t)

    def returned_bool(self, b):
        return self.kind == 'return' and self.value is b

    def stdout(self):
        t = ''
        for x in self.out:
            t = rt.concat(t, x) if (type(t) is not str or type(x) is not str) else t + x
        return t

    def describe(self):
        return '%s %s' % (self.kind, type(self.value).__name__ if self.kind == 'raise' else show(self.value))


def show(x):
    try:
        return repr(x)[:80]
    except EngineStop:
        return '<symbolic %s>' % x.__class__.__name__


class SymEnv:
    """the interface of a harness, symbolic side (vspec/conc.py is the
    concrete one)"""
    symbolic = True

    def __init__(self, eng, ctx, res):
        self.eng = eng
        self.ctx = ctx
        self.res = res
        self.pkg = eng.pkg
        self.Record = eng.pkg.Record

    # ---- inputs
    def choice(self, name, options):
        i = self.ctx.decide(len(options))
        self.ctx.inputs[name] = options[i]
        return options[i]

    def line(self, name, length=None):
        """any text"""
        if length is None:
            order = [132, MAXBODY + 1] + [n for n in range(MAXBODY + 1) if n != 132]
            length = order[self.ctx.decide(len(order))]
        cs, ctx = sym.CS, self.ctx
        ends = cs.ALL & ~cs.SPACE
        if length > MAXBODY:
            F, B = LongStr.FRONT, LongStr.BACK
            front = [V(ctx.newvar(ends if i == 0 else None)) for i in range(F)]
            back = [V(ctx.newvar(ends if i == B - 1 else None)) for i in range(B)]
            body = LongStr(tuple(front) + (Piece('middle', front[0].var),) + tuple(back))
        else:
            body = mk([V(ctx.newvar(ends if i in (0, length - 1) else None)) for i in range(length)])
        x = Lazy(body, name)
        ctx.inputs[name] = x
        return x

    def body_of(self, line):
        """the same text without the surrounding whitespace"""
        return line.body

    def opaque(self, name):
        x = SymStr((Piece('input', name),))
        self.ctx.inputs[name] = x
        return x

    # ---- running the code
    def run(self, f):
        n = len(self.ctx.events)
        try:
            v = f()
            kind = 'return'
        except EngineStop:
            raise
        except RecursionError:
            raise Unsupported('recursion')
        except BaseException as e:
            v, kind = e, 'raise'
        out = [e[1] for e in self.ctx.events[n:] if e[0] == 'out']
        return Outcome(kind, v, out)

    def text(self, x):
        return rt.to_str(x)

    def cover(self, label):
        self.res.covered[label] = self.res.covered.get(label, 0) + 1

    # ---- obligations
    def ensure(self, name, cond, detail=None):
        self.res.obl(name)
        if cond is not True and not (cond and cond is not NotImplemented):
            self.fail(name, detail)

    def fail(self, name, detail=None):
        self.res.fail(name, self.ctx, self.model_inputs(), detail)
        raise Failed(name)

    def model_inputs(self, rnd=None):
        return model(self.ctx, rnd)

    # ---- structure
    def forall(self, closure):
        """every sub-path of closure, independently of its siblings"""
        def body():
            try:
                closure()
                self.res.subpath(self.ctx, self)
            except Failed:
                self.res.subpaths += 1
            if any(fz(v) != w for v, w in self.ctx.memo):
                self.res.frame(['an object in a memo table'], self.ctx)
            ch = self.eng.heap.changed()
            if ch or self.ctx.side:
                self.res.frame(self.eng.heap.describe(ch, self.ctx.side, rt.CONTAINS_LOG), self.ctx)
        n = forall_paths(body, save_heap=self.eng.save_heap, limit=self.eng.sublimit)
        return n

    def decoder_key(self, field, record):
        parts = []
        vals = vars(field) if hasattr(field, '__dict__') else {s: getattr(field, s) for s in type(field).__slots__}
        for k in sorted(vals):
            v = vals[k]
            if isinstance(v, str):
                if type(v) is str and k != 'value':
                    parts.append((k, 'name'))
                else:
                    parts.append((k, self.box_key(v)))
            elif callable(v):
                parts.append((k, id(v)))
            else:
                parts.append((k, repr(type(v)), id(v)))
        return (type(field).__name__, tuple(parts))

    def box_key(self, v):
        if type(v) is str:
            return v
        c = chars_of(v)
        seen = {}
        out = []
        for x in c:
            if type(x) is V:
                out.append((seen.setdefault(x.var, len(seen)), x.map, self.ctx.box[x.var]))
            else:
                out.append(x if type(x) is str else x.key)
        return tuple(out)

    def decode_contract(self, field, record, value, tag, closure):
        """the contract of the decoder of a field.  While paths are collected
        only the obligation is noted; each distinct obligation (decoder, set of
        values, record attributes the decoder looks at) is explored once."""
        attrs = {k: v for k, v in field_attrs(record).items() if type(v) in (str, int, bool, type(None))}
        key = repr((tag, self.decoder_key(field, record), self.box_key(value), sorted(self.ctx.rels)))
        if self.eng.target is None:
            self.res.decoders.setdefault(key, {}).setdefault(
                tuple(sorted(attrs.items())), (list(self.ctx.frames[0].trail), key))
            return
        if self.eng.target != key or self.eng.target_done:
            return
        self.eng.target_done = True
        w = Watch(record)
        self.forall(lambda: closure(w))
        self.res.watch = (sorted(object.__getattribute__(w, '_log')), object.__getattribute__(w, '_deep')[0])
        raise CutPath()

    # ---- contracts of callees
    def abstract_decoders(self, r):
        """every field decoder, by its contract: an arbitrary text that depends
        on decoder, value and record, or a ValueError"""
        ctx = self.ctx

        def token(fn, value, record):
            k = ('decoded', id(fn), rt.deep_key(value), rt.deep_key(getattr(record, 'raw', '')))
            if ctx.predicate(('decoder raises',) + k):
                raise ValueError('invalid field')
            return SymStr((Piece(*k),))

        for f in r.fields:
            meth = getattr(type(f), 'decode', None)
            fns = [v for v in field_attrs(f).values() if callable(v)]
            if isinstance_t(meth, (type(token),)) and len(fns) == 1:
                rt.STUBS[meth] = lambda b, *a: token([v for v in field_attrs(b.__self__).values() if callable(v)][0],
                                                     b.__self__.value, a[0] if a else None)
                rt.STUBS[fns[0]] = lambda fn, value, record=None: token(fn, value, record)
            else:
                raise Unsupported('decoders are not called through the field')

    def abstract_record_decode(self):
        ctx = self.ctx
        fn = self.Record.decode

        def stub(bound, *a, **k):
            rec = bound.__self__ if hasattr(bound, '__self__') else a[0]
            a = a if hasattr(bound, '__self__') else a[1:]
            output = a[0] if a else k.get('output', True)
            key = ('table of', rt.deep_key([[f.name, f.value] for f in rec.fields]), rt.deep_key(rec.ident))
            if ctx.predicate(('decode raises',) + key):
                raise ValueError('invalid field')
            t = SymStr((Piece(*key),))
            if output is True:
                rt.emit(rt.concat(t, '\n'))
            return t
        rt.STUBS[fn] = stub

    def subject(self):
        """the record that is looked at: any record object, whatever it was used for before"""
        return self.used_record('used')

    def used_record(self, name):
        """a record in any state an earlier history may have left"""
        r = self.Record()
        for k, v in field_attrs(r).items():
            if isinstance(v, str):
                p = SymStr((Piece('stale', k),))
            elif isinstance(v, list):
                p = StaleList(k)
            elif isinstance(v, tuple):
                p = (Stale(k),)
            elif isinstance(v, dict):
                p = StaleDict(k)
            elif isinstance(v, bool):
                p = sym.CTX.nondet(2, 'earlier state of a record') == 0
            elif v is None:
                p = Stale(k) if sym.CTX.decide(2) else None
            elif isinstance(v, (int, float)):
                p = Stale(k)
            else:
                p = v
                raise Unsupported('state %s of a record' % k)
            setattr(r, k, p)
        for k in later_attrs(type(r)):
            if k not in field_attrs(r) and sym.CTX.decide(2):
                setattr(r, k, Stale(k))
        return r

    def same_attributes(self, a, b):
        x, y = field_attrs(a), field_attrs(b)
        if sorted(x) != sorted(y):
            raise Unsupported('records with different attributes')
        for k in x:
            u, v = x[k], y[k]
            if u is v:
                continue
            if isinstance(u, str) and isinstance(v, str):
                if u == v:
                    continue
            elif type(u) is type(v) is list and len(u) == len(v):
                if all(type(p) is type(q) and freeze_obj(p) == freeze_obj(q) for p, q in zip(u, v)):
                    continue
            elif type(u) is type(v) and type(u) in (int, bool, float) and u == v:
                continue
            raise Unsupported('attribute %s depends on the history' % k)
        return True

    def as_in_a_fresh_process(self, r, line, read):
        return True         # every path starts from the initial state of the package; paths that change it are reported

    def library_as_before(self):
        return True         # the frame check

    def other_record(self):
        o = self.Record()
        for l in self.eng.samples:
            if o.read(l) is True:
                break
        return o

    def snapshot(self, r):
        return Snapshot(rt.deep_key([r.ident, r.raw, r.continuation, [[f.name, f.value] for f in r.fields]]))

    def loads(self, t):
        return rt.json_loads(t)

    def one_line(self, t):
        if type(t) is str:
            return '\n' not in t
        c = t.c
        if len(c) == 1 and type(c[0]) is Piece and c[0].key in rt.JSONTAB:
            return rt.JSONTAB[c[0].key][1].get('indent') is None
        raise Unsupported('layout of a json text')

    def table(self, header, rows):
        t = rt.TableModel(field_names=header)
        t.align = 'l'
        for r in rows:
            t.add_row(r)
        return t.get_string()

    def ends_with(self, o, t):
        a, b = sym.norm_key(chars_of(o.stdout())), sym.norm_key(chars_of(t))
        return a[-len(b):] == b

    def contains_text(self, o, t):
        a, b = sym.norm_key(chars_of(o.stdout())), sym.norm_key(chars_of(t))
        return any(a[i:i + len(b)] == b for i in range(len(a) - len(b) + 1))

    # ---- unbounded files
    def job(self):
        import files
        j = files.Job(self, self.eng.phase, self.eng.inv)
        rt.FILES = files.FS(j)
        rt.LOOP = j.loops
        self.eng.job = j
        if self.eng.weak:
            self.ctx.approx.append('the search for loop invariants met a construct outside the models')
        return j

    def read_stub(self):
        """Record.read by its contract: a verdict, and the trimmed text"""
        ctx = self.ctx
        import files
        fn = self.Record.read

        def stub(bound, *a, **k):
            rec, a = (bound.__self__, a) if hasattr(bound, '__self__') else (a[0], a[1:])
            line = a[0] if a else k.get('line')
            if not isinstance_t(line, (files.LineTok,)):
                raise Unsupported('read of something else than a line of the file')
            if not self.acc(line):
                return False
            rec.raw = self.rawof(line)
            rec.fields = [Stale('fields')]
            return True
        rt.STUBS[fn] = stub

        def dstub(bound, *a, **k):
            rec, a = (bound.__self__, a) if hasattr(bound, '__self__') else (a[0], a[1:])
            output = a[0] if a else k.get('output', True)
            t = SymStr((Piece('table of', rt.deep_key(rec.raw)),))
            if ctx.predicate(('decode raises', rt.deep_key(rec.raw))):
                raise ValueError('invalid field')
            if output is True:
                rt.emit(rt.concat(t, '\n'))
            return t
        rt.STUBS[self.Record.decode] = dstub

    def parts(self):
        return ['search'] if self.eng.phase == 'search' else ['search', 'read']

    def read_lemma(self):
        """what read_stub says: the text that a record keeps is the trimmed line, and reading it says nothing"""
        line = self.line('line')
        r = self.subject()
        o = self.run(lambda: r.read(line))
        if not (o.returned and o.value is True):
            return
        ok = hasattr(r, 'raw') and bool(r.raw == self.body_of(line))
        if not ok or o.out:
            self.ctx.approx.append('the text that search prints may come from elsewhere')
        self.ensure('the text kept of a record is that of the line', ok)
        self.ensure('reading a record prints nothing', not o.out)

    def acc(self, tok):
        k = ('nonempty', repr(sym.norm_key(tok.c)))
        if self.ctx.uninterp.get(k) is False:
            return False
        b = self.ctx.predicate(('accepted', tok.key()))
        if b:
            self.ctx.uninterp[k] = True
        return b

    def rawof(self, tok):
        return SymStr((Piece('raw', tok.key()),))

    def iteration(self, expect):
        ctx, j = self.ctx, self.eng.job
        got = [e[1] for e in ctx.events[j.n0:] if e[0] == 'out']
        t = rt.concat('', *got) if got else ''
        return self.same_text(t, expect)

    def same_text(self, a, b):
        if not sym.same_key(rt.deep_key(a), rt.deep_key(b)):
            return False
        d = set()
        x, y = sym.smt_text(chars_of(a), d), sym.smt_text(chars_of(b), d)
        sym.smt_log(d, [], '(= %s %s)' % (x, y))
        return True

    def read_file_contract(self, output):
        j = self.job()
        self.read_stub()
        path = self.opaque('file')
        j.deltas = {'matched': lambda: 1 if self.acc(j.cur) else 0, 'accepted': lambda: 1 if self.acc(j.cur) else 0}

        def expect():
            if not self.acc(j.cur) or output is False:
                return ''
            return rt.concat(SymStr((Piece('table of', rt.deep_key(self.rawof(j.cur))),)), '\n')

        def check():
            self.ensure('nothing is printed before the first line', not j.before)
            if self.acc(j.cur):
                self.ensure('a record is decoded', ('decode raises', rt.deep_key(self.rawof(j.cur))) in self.ctx.uninterp)
            self.ensure('an arbitrary line is parsed exactly once', self.iteration(expect()))
        j.check = check
        args = () if output is None else (output,)
        o = self.run(lambda: rt.call(self.pkg.read_file, path, *args))
        if self.eng.phase == 'search':
            return
        if not j.used:
            raise Unsupported('the lines are not read by a loop')
        if j.left_early():
            bad = j.cur is not None and self.acc(j.cur) and self.ctx.uninterp.get(
                ('decode raises', rt.deep_key(self.rawof(j.cur))))
            self.ensure('only an invalid record stops the loop', o.raised(ValueError) and bad, o.describe())
            return
        self.ensure('returns after the last line', o.returned, o.describe())
        self.ensure('prints nothing of its own', not o.out)

    def read_folder_contract(self):
        import files
        j = self.job()
        ctx = self.ctx
        path = self.opaque('folder')
        calls = []

        def stub(fn, p, *a, **k):
            out = a[0] if a else k.get('output', True)
            k = files.path_key(p)
            calls.append((k, out))
            self.ensure('only files of the folder are read', k[0] == 'file' and files.isfile(p), repr(k))
            if ctx.predicate(('file raises', k)):
                raise ValueError('invalid record')
            return None
        rt.STUBS[self.pkg.read_file] = stub
        j.deltas = {'matched': lambda: len(want()), 'accepted': lambda: len(want())}

        def want():
            k = j.cur.name.c[0].key[1] if not isinstance_t(j.cur, (SymStr,)) else j.cur.c[0].key[1]
            p = rt.FILES.join(path, SymStr((Piece('filename', k),)))
            return [(('file', files.FOLDER, k), True)] if files.isfile(p) else []

        def check():
            self.ensure('nothing is printed before the first file', not j.before)
            self.ensure('an arbitrary entry of the folder is read exactly once, with output, if it is a file',
                        calls == want(), repr(calls))
            self.ensure('and nothing else is printed', self.iteration(''))
        j.check = check
        o = self.run(lambda: rt.call(self.pkg.read_folder, path))
        if self.eng.phase == 'search':
            return
        if not j.used:
            raise Unsupported('the files are not read by a loop')
        if j.left_early():
            self.ensure('only an invalid record stops the loop', o.raised(ValueError) and len(calls) == 1, o.describe())
            return
        self.ensure('returns after the last file', o.returned, o.describe())
        self.ensure('prints nothing of its own', not o.out)
        self.ensure('reads no other file', not calls)

    def search_contract(self, kind):
        j = self.job()
        self.read_stub()
        path = self.opaque('file')
        if kind == 'text':
            filters = self.opaque('filter')
        elif kind == 'list':
            import files
            filters = files.Texts(j, self.rawof)
        else:
            filters = [self.opaque('filter%d' % i) for i in range(int(kind.split()[1]))]

        def matches():
            if not self.acc(j.cur):
                return False
            raw = self.rawof(j.cur)
            if kind == 'list':
                return filters.all_in()
            for f in ([filters] if kind == 'text' else filters):
                if not rt.contains(f, raw):
                    return False
            return True
        j.deltas = {'matched': lambda: 1 if matches() else 0, 'accepted': lambda: 1 if self.acc(j.cur) else 0}

        def check():
            self.ensure('nothing is printed before the first line', not j.before)
            self.ensure('a record is printed iff it matches', self.iteration(
                rt.concat(self.rawof(j.cur), '\n') if matches() else ''))
        j.check = check
        o = self.run(lambda: rt.call(self.pkg.search, path, filters))
        if self.eng.phase == 'search':
            return
        if not j.used:
            raise Unsupported('the lines are not read by a loop')
        self.ensure('every line is looked at', not j.left_early(), o.describe())
        self.ensure('returns after the last line', o.returned, o.describe())
        n = sym.LinInt('matched', 0)
        t = rt.colored(rt.fstring('Found ', (n, -1, ''), ' records that contain ', (filters, -1, '')),
                       'green' if n else 'red')
        self.ensure('the number of matching records is reported', self.same_text(o.stdout(), rt.concat(t, '\n')))


class Snapshot:
    """what a record holds, compared with what is known of it later"""

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return sym.same_key(self.key, o.key)

    __hash__ = None


class Stale:
    """left over from an earlier history"""

    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def __getattr__(self, n):
        raise Unsupported('use of earlier state %s' % object.__getattribute__(self, '_n'))

    def __bool__(self):
        sym.CTX.approx.append('earlier state of a record')
        return sym.CTX.predicate(('stale', id(self)))

    def __eq__(self, o):
        if o is self:
            return True
        sym.CTX.approx.append('earlier state of a record')
        return sym.CTX.predicate(('stale eq', id(self), id(o)))

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def _stale(base):
    """a container left over from an earlier history: clearing it is all that is known"""
    def touch(n):
        def f(self, *a, **k):
            if self._live:
                return getattr(base, n)(self, *a, **k)
            raise Unsupported('use of earlier state %s' % self._n)
        return f

    def init(self, name):
        base.__init__(self)
        self._n, self._live = name, False

    def clear(self):
        base.clear(self)
        self._live = True
    d = {n: touch(n) for n in dir(base) if callable(getattr(base, n)) and n not in (
        '__init__', '__new__', '__class__', '__getattribute__', '__setattr__', '__init_subclass__', '__subclasshook__',
        '__class_getitem__', '__hash__', '__dir__', '__sizeof__', '__delattr__')}
    d.update(__init__=init, clear=clear)
    return type('Stale' + base.__name__, (base,), d)


StaleList, StaleDict = _stale(list), _stale(dict)


def fz(v):
    from files import freeze
    return freeze(v)


def later_attrs(cls):
    """attributes that methods of the class (or of its bases) store on some object"""
    out = set()

    def scan(code):
        last = None
        for i in dis.get_instructions(code):
            if i.opname == 'STORE_ATTR' and last is not None and last.opname == 'LOAD_FAST' and \
                    code.co_varnames[:1] == (last.argval,):
                out.add(i.argval)
            last = i
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                scan(c)
    for c in cls.__mro__[:-1]:
        for f in vars(c).values():
            f = getattr(f, '__wrapped__', getattr(f, '__func__', f))
            if isinstance(f, property):
                f = f.fget
            if isinstance(getattr(f, '__code__', None), types.CodeType):
                scan(f.__code__)
            w = getattr(f, 'func', None)                        # cached_property
            if isinstance(getattr(w, '__code__', None), types.CodeType):
                out.add(w.__name__)
    return sorted(out)


def field_attrs(f):
    d = {}
    for c in type(f).__mro__:
        for s in getattr(c, '__slots__', ()):
            if hasattr(f, s):
                d[s] = getattr(f, s)
    d.update(getattr(f, '__dict__', {}))
    return d


def freeze_obj(f):
    return tuple((k, rt.deep_key(v) if isinstance(v, str) else id(v)) for k, v in sorted(field_attrs(f).items()))


class Watch:
    """the record handed to a decoder: remembers which attributes were read"""

    def __init__(self, rec):
        object.__setattr__(self, '_rec', rec)
        object.__setattr__(self, '_log', set())
        object.__setattr__(self, '_deep', [False])

    def __getattribute__(self, n):
        rec = object.__getattribute__(self, '_rec')
        if n == '__class__':
            return type(rec)
        v = getattr(rec, n)
        if type(v) in (str, int, bool, type(None)):
            object.__getattribute__(self, '_log').add(n)
        else:
            object.__getattribute__(self, '_deep')[0] = True
        return v

    def __setattr__(self, n, v):
        object.__getattribute__(self, '_deep')[0] = True
        setattr(object.__getattribute__(self, '_rec'), n, v)


# ---------------------------------------------------------------- models
def model(ctx, rnd=None):
    """concrete inputs of the path"""
    asg = {}
    if ctx.rels:
        asg = solve_rels(ctx)

    def char(x):
        if type(x) is str:
            return x
        if type(x) is Piece:
            return filler(x, rnd)
        c = asg.get(x.var)
        if c is None:
            c = asg[x.var] = sym.CS.pick(ctx.box[x.var], rnd)
        return sym.CS.apply(x.map, c)

    def conv(v):
        if isinstance_t(v, (Lazy,)):
            if v.forced is not None:
                return ''.join(char(x) for x in v.forced.c)
            b = ''.join(char(x) for x in chars_of(v.body))
            return b if rnd is None else rnd.choice(['', ' ', '\n', '\t ']) + b + rnd.choice(['', '\n', '\r\n', '  \n'])
        if isinstance_t(v, (SymStr,)):
            return ''.join(char(x) for x in v.c)
        if isinstance(v, (list, tuple)):
            return [conv(y) for y in v]
        return v
    return {k: conv(v) for k, v in ctx.inputs.items()}


def filler(p, rnd):
    if p.key[0] == 'middle':
        return ''
    return '{%s}' % (p.key,)


def solve_rels(ctx):
    """characters related by equality / disequality: z3"""
    import z3
    s = z3.Solver()
    vs = {}
    for a, b, r in ctx.rels:
        for v in (a, b):
            if v not in vs:
                vs[v] = z3.Int('c%d' % v)
                s.add(z3.Or([z3.And(vs[v] >= lo, vs[v] <= hi) for lo, hi in sym.CS.to_ranges(ctx.box[v])]))
        s.add(vs[a] == vs[b] if r else vs[a] != vs[b])
    if s.check() != z3.sat:
        raise Infeasible()
    m = s.model()
    return {v: chr(m.eval(x, model_completion=True).as_long()) for v, x in vs.items()}


# ---------------------------------------------------------------- results
class Result:
    def __init__(self):
        self.paths = 0
        self.subpaths = 0
        self.infeasible = 0
        self.contracts = 0
        self.obls = {}
        self.failures = []
        self.unsupported = {}
        self.approx = {}
        self.labels = {}
        self.models = []
        self.frames = {}
        self.frame_models = []
        self.decoders = {}
        self.watch = None
        self.funcs = set()
        self.covered = {}
        self.smt = {}
        self.rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))

    def obl(self, name):
        self.obls[name] = self.obls.get(name, 0) + 1

    def fail(self, name, ctx, inputs, detail):
        if len(self.failures) < 200:
            more = [inputs]
            if len(self.failures) < 40:
                for _ in range(12):
                    try:
                        m = model(ctx, self.rnd)
                    except (EngineStop, Exception):
                        break
                    if m not in more:
                        more.append(m)
            self.failures.append({'obligation': name, 'inputs': more, 'detail': detail, 'approx': list(ctx.approx),
                                  'labels': list(ctx.labels)})

    def frame(self, names, ctx):
        for d in names:
            self.frames[d] = self.frames.get(d, 0) + 1
        if names and len(self.frame_models) < 12:
            try:
                self.frame_models.append(model(ctx, self.rnd))
            except (EngineStop, Exception):
                pass

    def subpath(self, ctx, env):
        self.subpaths += 1
        for a in ctx.approx:
            self.approx[a] = self.approx.get(a, 0) + 1
        if len(self.models) < 4000:
            try:
                self.models.append(model(ctx, self.rnd))
            except Infeasible:
                pass

    def merge(self, o):
        self.paths += o.paths
        self.subpaths += o.subpaths
        self.infeasible += o.infeasible
        self.contracts += o.contracts
        for n in ('obls', 'unsupported', 'approx', 'labels', 'frames', 'covered'):
            a, b = getattr(self, n), getattr(o, n)
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.failures.extend(o.failures)
        self.funcs |= o.funcs
        for k, v in o.smt.items():
            self.smt[k] = self.smt.get(k, 0) + v
        self.models.extend(o.models)
        self.frame_models.extend(o.frame_models)
        for k, d in o.decoders.items():
            t = self.decoders.setdefault(k, {})
            for a, v in d.items():
                t.setdefault(a, v)


class Engine:
    def __init__(self, pkg):
        self.pkg = pkg
        self.heap = Heap()
        rt.STABLE = {id(o) for o in self.heap.keep} | {id(x[0]) for x in self.heap.items}
        self.path_seconds = 60
        self.target = None
        self.target_done = False
        self.sublimit = 200000
        self.samples = []
        self.phase = 'prove'
        self.weak = False
        self.inv = {}
        self.job = None

    def save_heap(self):
        # package state during nested exploration: restored to the state at
        # the entry (only if something changed since the start of the path)
        return lambda: self.heap.restore()

    def path(self, harness, prefix, res, trace=False):
        """one path; returns the pending alternatives"""
        ctx = Ctx(prefix)
        sym.set_ctx(ctx)
        rt.STUBS.clear()
        rt.CONTAINS_LOG.clear()
        rt.JSONTAB.clear()
        rt.FILES = None
        rt.LOOP = None
        env = SymEnv(self, ctx, res)
        old = sys.stdout
        sys.stdout = rt.STDOUT
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.path_seconds)
        try:
            try:
                harness(env)
                res.paths += 1
            except Infeasible:
                res.infeasible += 1
                return ctx.frames[0].pending
            except CutPath:
                res.paths += 1
            except Failed:
                res.paths += 1
            except Unsupported as e:
                w = str(e)
                if trace:
                    traceback.print_exc(file=old)
                tb = e.__traceback__
                where = ''
                while tb is not None:
                    fn = tb.tb_frame.f_code.co_filename
                    if '/arinc424/' in fn:
                        where = '%s:%d' % (fn.split('/arinc424/')[-1], tb.tb_lineno)
                    tb = tb.tb_next
                res.unsupported[w + ' @' + where] = res.unsupported.get(w + ' @' + where, 0) + 1
            except (SystemExit, Exception) as e:
                if trace:
                    traceback.print_exc(file=old)
                k = 'engine error: %s: %s' % (type(e).__name__, str(e)[:100])
                res.unsupported[k] = res.unsupported.get(k, 0) + 1
            for a in ctx.approx:
                res.approx[a] = res.approx.get(a, 0) + 1
            for a in ctx.labels:
                res.labels[a] = res.labels.get(a, 0) + 1
            if any(fz(v) != w for v, w in ctx.memo):
                res.frame(['an object in a memo table'], ctx)
            ch = self.heap.changed()
            if ch or ctx.side:
                res.frame(self.heap.describe(ch, ctx.side, rt.CONTAINS_LOG), ctx)
                self.heap.restore(ch)
            if len(ctx.frames) == 1:
                try:
                    res.models.append(model(ctx, res.rnd))
                except (Infeasible, EngineStop, Exception):
                    pass
            return ctx.frames[0].pending
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.stdout = old
            rt.STUBS.clear()

    def explore(self, harness, prefixes, res, budget, deadline):
        stack = list(prefixes)
        n = 0
        while stack and n < budget and time.time() < deadline:
            p = stack.pop()
            stack.extend(self.path(harness, p, res))
            n += 1
        return stack


_ENG = None
_HARN = None


def collect(res):
    for k, v in sym.SMTLOG.items():
        res.smt[k] = res.smt.get(k, 0) + v
    sym.SMTLOG.clear()
    for c in rt.FUNCS:
        if '/arinc424/' in c.co_filename:
            res.funcs.add(c.co_filename.split('/arinc424/')[-1] + ':' + c.co_qualname)
    rt.FUNCS.clear()


def _alarm(*a):
    raise Unsupported('time limit of a path')


def _work(args):
    prefixes, budget, deadline = args
    res = Result()
    res.rnd = random.Random((os.environ.get('VERIF_SEED', '1') + repr(prefixes[0]))[:200])
    sym.VCLOG.clear()
    rest = _ENG.explore(_HARN, prefixes, res, budget, deadline)
    collect(res)
    return res, rest, dict(sym.VCLOG)


def _decode(args):
    prefix, key, deadline = args
    res = Result()
    res.rnd = random.Random(os.environ.get('VERIF_SEED', '1') + key[:200])
    sym.VCLOG.clear()
    _ENG.target, _ENG.target_done = key, False
    try:
        _ENG.path(_HARN, prefix, res)
    finally:
        _ENG.target = None
    res.paths = 0
    res.contracts = 1
    if res.watch is None and not res.failures and not res.unsupported:
        res.unsupported['a decoder obligation was not reached'] = 1
    if len(res.models) > 400:
        res.models = res.rnd.sample(res.models, 400)
    collect(res)
    return res, dict(sym.VCLOG)


def decoder_obligations(pool, total, vcs, deadline):
    """explore every distinct decoder obligation noted on the paths"""
    first = [(k, a) for k in total.decoders for a in list(total.decoders[k])[:1]]
    # longest values first
    first.sort(key=lambda x: -len(x[0]))
    rounds = [first]
    done = set()
    log = {}
    while rounds:
        todo = [x for x in rounds.pop(0) if x not in done]
        done.update(todo)
        jobs = [(k, pool.apply_async(_decode, ((total.decoders[k][a][0], k, deadline),))) for k, a in todo]
        nxt = []
        for k, j in jobs:
            r, vc = j.get()
            total.merge(r)
            for x, n in vc.items():
                vcs[x] = vcs.get(x, 0) + n
            if r.watch is None:
                continue
            names, deep = r.watch
            if k in log:
                continue
            log[k] = names
            if not names and not deep:
                continue
            seen = set()
            for a in total.decoders[k]:
                v = a if deep else tuple((n, x) for n, x in a if n in names)
                if v not in seen:
                    seen.add(v)
                    nxt.append((k, a))
        nxt = [x for x in nxt if x not in done]
        if nxt:
            rounds.append(nxt)


def find_invariants(eng, harness, seconds=60):
    """Houdini over the candidate invariants of the loops over lines"""
    eng.phase, eng.inv = 'search', {}
    t0 = time.time()
    rounds = 0
    while time.time() - t0 < seconds:
        rounds += 1
        killed = set()
        stack = [[]]
        n = 0
        res = Result()
        fine, bad = set(), set()
        while stack and n < 5000:
            n += 1
            u = sum(res.unsupported.values())
            stack.extend(eng.path(harness, stack.pop(), res))
            if eng.job is not None:
                killed.update(eng.job.killed)
                for k, i in sym.CTX.uninterp.items():
                    if k[0] == 'candidate':
                        l = eng.inv[k[1:]]
                        (bad if sum(res.unsupported.values()) > u else fine).add(k[1:] + (l[i],))
        if not killed:
            # a candidate that leads outside the models is given up when another one does not
            for site, v, c in bad:
                if any(x[:2] == (site, v) and x not in bad for x in fine):
                    killed.add((site, v, c))
        if not killed:
            break
        for site, v, c in killed:
            if c == 'havoc':
                eng.inv[(site, v, c)] = []
            else:
                eng.inv[(site, v)].remove(c)
    eng.weak = bool(killed or res.unsupported)
    eng.phase = 'prove'
    return {'%s in %s' % (k[1], k[0]): (l[0] if l else None) for k, l in eng.inv.items()}


def run(eng, harness, seconds=300, procs=8, maxpaths=200000):
    """explore everything below the empty prefix"""
    global _ENG, _HARN
    _ENG, _HARN = eng, harness
    total = Result()
    vcs = {}
    t0 = time.time()
    deadline = t0 + seconds
    sym.VCLOG.clear()
    # breadth first in this process until there is enough to share
    frontier = [[]]
    n = 0
    while frontier and n < 40 and time.time() < deadline:
        p = frontier.pop(0)
        frontier.extend(eng.path(harness, p, total))
        n += 1
    for k, v in sym.VCLOG.items():
        vcs[k] = vcs.get(k, 0) + v
    sym.VCLOG.clear()
    collect(total)
    left = []
    if frontier and procs > 1:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(procs) as pool:
            pending = []

            def submit(ps):
                # small chunks of prefixes
                k = max(1, min(25, len(ps) // (procs * 2)))
                for i in range(0, len(ps), k):
                    pending.append(pool.apply_async(_work, ((ps[i:i + k], 60, deadline),)))
            submit(frontier)
            while pending:
                done = [x for x in pending if x.ready()]
                if not done:
                    time.sleep(0.005)
                    continue
                for x in done:
                    pending.remove(x)
                    r, rest, vc = x.get()
                    total.merge(r)
                    for k, v in vc.items():
                        vcs[k] = vcs.get(k, 0) + v
                    if rest:
                        if time.time() < deadline and total.paths < maxpaths:
                            submit(rest)
                        else:
                            left.extend(rest)
            if total.decoders:
                decoder_obligations(pool, total, vcs, deadline)
    elif frontier:
        left = eng.explore(harness, frontier, total, maxpaths, deadline)
        for k, v in sym.VCLOG.items():
            vcs[k] = vcs.get(k, 0) + v
    collect(total)
    if left:
        total.unsupported['budget: %d open branches' % len(left)] = len(left)
    total.seconds = time.time() - t0
    return total, vcs
