"""The harnesses on the real, unmodified code under CPython: replay of the
verifier's counterexamples and cross-check of its paths.

    python conc/run.py JOBS.json OUT.json

JOBS: {"property": id, "seed": n, "pool": [lines], "jobs": [inputs, ...]}"""
import collections
import contextlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import traceback

JOB_SECONDS = 20


class Failed(Exception):
    pass


class Undecided(Exception):
    pass


class TooLong(BaseException):
    pass


class Err(io.TextIOBase):
    """standard error: what goes there is not what was asked for"""

    def __init__(self, buf):
        self.buf = buf

    def write(self, t):
        self.buf.write('\0stderr: ' + t)
        return len(t)


class Outcome:
    def __init__(self, kind, value, out):
        self.kind = kind
        self.value = value
        self.out = out
        self.returned = kind == 'return'

    def raised(self, t):
        return self.kind == 'raise' and isinstance(self.value, t)

    def returned_bool(self, b):
        return self.kind == 'return' and self.value is b

    def stdout(self):
        return self.out

    def describe(self):
        v = self.value
        if self.kind == 'raise':
            return 'raise %s(%s)' % (type(v).__name__, str(v)[:100])
        return 'return %s' % repr(v)[:120]


def digest(env, r, read):
    """everything a caller can see of a record that was just read"""
    out = []

    def add(o):
        out.append([o.kind, repr(o.value) if o.kind == 'return' else type(o.value).__name__, o.out])
    add(read)
    for f in (r.primary, r.hasCont, lambda: r.json(False), lambda: r.json(False, single_line=False), lambda: r.decode(False),
              lambda: [[f.name, f.value] for f in r.fields]):
        add(env.run(f))
    return out


class Pristine:
    """a process that has imported the package and done nothing else; each question is answered in a fork of it"""

    def start(self, pkg):
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        self.cache = {}
        pid = os.fork()
        if pid:
            os.close(a)
            os.close(b)
            self.w = os.fdopen(self.w, 'w')
            self.r = os.fdopen(self.r)
            return
        os.close(self.w)
        os.close(self.r)
        q, w = os.fdopen(a), os.fdopen(b, 'w')
        for text in q:
            if os.fork() == 0:
                env = ConcEnv(pkg, {}, None, [])
                r = pkg.Record()
                line = json.loads(text)
                w.write(json.dumps(digest(env, r, env.run(lambda: r.read(line)))) + '\n')
                w.flush()
                os._exit(0)
            os.wait()
        os._exit(0)

    def look(self, line):
        if line not in self.cache:
            if len(self.cache) > 2000:
                self.cache.clear()
            self.w.write(json.dumps(line) + '\n')
            self.w.flush()
            self.cache[line] = json.loads(self.r.readline())
        return self.cache[line]


PRISTINE = Pristine()


class ConcEnv:
    symbolic = False
    parses = False

    def __init__(self, pkg, inputs, rnd, pool):
        self.pkg = pkg
        self.inputs = inputs
        self.rnd = rnd
        self.pool = pool
        self.Record = pkg.Record
        self.obls = 0

    # ---- inputs
    def choice(self, name, options):
        v = self.inputs.get(name)
        if name not in self.inputs or v not in options:
            v = self.inputs[name] = self.rnd.choice(options)
        return v

    def line(self, name, length=None):
        if name not in self.inputs:
            self.inputs[name] = self.rnd.choice(self.pool)
        return self.inputs[name]

    def body_of(self, line):
        return line.strip()

    # ---- running the code
    def run(self, f):
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(Err(buf)):
                v = f()
            kind = 'return'
        except (KeyboardInterrupt, Failed):
            raise
        except TooLong:
            if self.large:
                raise
            return Outcome('raise', TooLong('no end after %d s of computing' % JOB_SECONDS), buf.getvalue())
        except BaseException as e:
            v, kind = e, 'raise'
        return Outcome(kind, v, buf.getvalue())

    def text(self, x):
        return str(x)

    def cover(self, label):
        pass

    def ensure(self, name, cond, detail=None):
        self.obls += 1
        if not cond:
            raise Failed(name, detail)

    def fail(self, name, detail=None):
        raise Failed(name, detail)

    def decode_contract(self, field, record, value, tag, closure):
        closure(record)

    # ---- contracts of callees are not abstracted here
    def abstract_decoders(self, r):
        pass

    def abstract_record_decode(self):
        pass

    def used_record(self, name):
        if name not in self.inputs:
            self.inputs[name] = [self.rnd.choice(self.pool) for _ in range(self.rnd.choice((1, 1, 2, 3)))]
        r = self.Record()
        for l in self.inputs[name]:
            self.use(r, l)
        return r

    def subject(self):
        """the record that is looked at; it may have been used before"""
        r = self.Record()
        for l in self.inputs.get('used', ()):
            self.use(r, l)
        return r

    def use(self, r, l):
        if self.parses:
            for f in (lambda: self.pkg.parse(l), lambda: self.pkg.parse(l, False), lambda: self.pkg.parse(l, True)):
                self.run(f)
        o = self.run(lambda: r.read(l))
        if o.returned and o.value:
            for f in (r.primary, r.hasCont, lambda: r.decode(False), lambda: r.json(False), lambda: r.json(False, single_line=False)):
                self.run(f)

    def as_in_a_fresh_process(self, r, line, read):
        """is reading this line, and what the record then says, as if nothing had been read before?"""
        return PRISTINE.look(line) == digest(self, r, read)

    def fresh_look(self, line):
        """a new record of this line, compared with the first one of a new process"""
        r = self.Record()
        return self.as_in_a_fresh_process(r, line, self.run(lambda: r.read(line)))

    def same_attributes(self, a, b):
        for f in ('primary', 'hasCont', 'decode', 'json'):
            arg = (False,) if f in ('decode', 'json') else ()
            x = self.run(lambda: getattr(a, f)(*arg))
            y = self.run(lambda: getattr(b, f)(*arg))
            if x.kind != y.kind or x.out != y.out or (x.returned and x.value != y.value):
                return False
        return True

    def library_as_before(self):
        if 'later' not in self.inputs:
            self.inputs['later'] = self.rnd.choice(self.pool)
        return self.fresh_look(self.inputs['later'])

    def other_record(self):
        o = self.Record()
        if 'other' not in self.inputs:
            self.inputs['other'] = self.rnd.choice(self.pool)
        self.run(lambda: o.read(self.inputs['other']))
        return o

    def snapshot(self, r):
        return [r.ident, r.raw, r.continuation, [[f.name, f.value] for f in r.fields]]

    def loads(self, t):
        try:
            return json.loads(t)
        except Exception:
            return None

    def one_line(self, t):
        return '\n' not in t

    def table(self, header, rows):
        from prettytable import PrettyTable
        t = PrettyTable(field_names=header)
        t.align = 'l'
        for r in rows:
            t.add_row(r)
        return t.get_string()

    def ends_with(self, o, t):
        return o.out.endswith(t)

    def contains_text(self, o, t):
        return t in o.out

    # ---- files
    def one(self, line, output):
        """what parsing this line prints, and whether it raises"""
        r = self.Record()
        a = self.run(lambda: r.read(line))
        if not a.returned:
            return a.out, a.value
        if not a.value:
            return a.out, None
        d = self.run(lambda: r.decode(output))
        return a.out + d.out, None if d.returned else d.value

    def expected(self, path, output):
        out = ''
        with open(path) as f:
            lines = f.readlines()
        for l in lines:
            t, e = self.one(l, output)
            out += t
            if e is not None:
                return out, e
        return out, None

    @contextlib.contextmanager
    def scratch(self):
        d = tempfile.mkdtemp(prefix='verif-')
        try:
            yield d
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def write(self, path, content):
        with open(path, 'w', newline='', encoding='utf-8') as f:
            f.write(content)

    def contents(self):
        """what the file holds at one call after the other"""
        c = self.inputs['file']
        return [c] + self.inputs.get('then', [])

    def read_file_contract(self, output):
        with self.scratch() as d:
            p = os.path.join(d, 'records')
            for c in self.contents():
                self.write(p, c)
                want, exc = self.expected(p, output is not False)
                o = self.run(lambda: self.pkg.read_file(p, output) if output is not None else self.pkg.read_file(p))
                if exc is None:
                    self.ensure('returns after the last line', o.returned, o.describe())
                else:
                    self.ensure('an invalid record surfaces as ValueError', o.raised(type(exc)), o.describe())
                self.ensure('every line is parsed once, in order', o.out == want)

    def read_folder_contract(self):
        with self.scratch() as d, self.scratch() as other:
            for folder in [self.inputs['folder']] + self.inputs.get('then', []):
                for n in os.listdir(d):
                    e = os.path.join(d, n)
                    shutil.rmtree(e) if os.path.isdir(e) and not os.path.islink(e) else os.unlink(e)
                for n, c in folder.items():
                    if isinstance(c, dict):         # a folder or a link to one
                        e = os.path.join(other if c.get('link') else d, n)
                        os.mkdir(e)
                        for m, x in c['files'].items():
                            self.write(os.path.join(e, m), x)
                        if c.get('link'):
                            os.symlink(e, os.path.join(d, n))
                    elif n in self.inputs.get('links', ()):
                        self.write(os.path.join(other, n), c)
                        e = os.path.join(other, n)
                        os.symlink(e if len(n) % 2 else os.path.relpath(e, d), os.path.join(d, n))
                    else:
                        self.write(os.path.join(d, n), c)
                self.folder_contract(d, [self.expected(os.path.join(d, n), True) for n, c in folder.items()
                                       if not isinstance(c, dict)])
                for n in os.listdir(other):
                    e = os.path.join(other, n)
                    shutil.rmtree(e) if os.path.isdir(e) else os.unlink(e)

    def folder_contract(self, d, exp):
        p = d + self.inputs.get('suffix', '')
        o = self.run(lambda: self.pkg.read_folder(p))
        raises = any(e is not None for _, e in exp)
        self.ensure('returns or raises as its files do', o.returned if not raises else o.raised(ValueError),
                    o.describe())
        self.ensure('every file is read exactly once', in_some_order(exp, o.out))

    def search_contract(self, kind):
        filters = self.inputs['filter_value']
        with self.scratch() as d:
            p = os.path.join(d, 'records')
            for c in self.contents():
                self.write(p, c)
                self.one_search(p, filters)

    def parts(self):
        return ['read' if 'line' in self.inputs else 'search']

    def read_lemma(self):
        """the line in a file, and searched for"""
        l = self.inputs['line']
        if any('\ud800' <= c <= '\udfff' for c in l):
            return
        with self.scratch() as d:
            p = os.path.join(d, 'records')
            self.write(p, l)
            for filters in ('', [], l.strip()[60:70], [l.strip()]):
                self.one_search(p, filters)

    def one_search(self, p, filters):
        with open(p) as f:
            lines = f.readlines()
        said, found = collections.Counter(), []
        for l in lines:
            r = self.Record()
            a = self.run(lambda: r.read(l))
            if not (a.returned and a.value):
                said.update(a.out.split('\n')[:-1])
                continue
            fs = [filters] if isinstance(filters, str) else filters
            text = l.strip()
            if all(f in text for f in fs):
                found.append(text)
        n = len(found)
        from termcolor import colored
        end = self.run(lambda: print(colored('Found %d records that contain %s' % (n, filters),
                                             'green' if n else 'red'))).out
        o = self.run(lambda: self.pkg.search(p, filters))
        self.ensure('returns after the last line', o.returned, o.describe())
        # what reading says about the lines it refuses may come at any time
        rest = []
        for x in o.out.split('\n'):
            if said[x] > 0:
                said[x] -= 1
            else:
                rest.append(x)
        self.ensure('exactly the matching records, in order', rest[:n] == found)
        self.ensure('and their number', rest[n:] == end.split('\n'))


def in_some_order(exp, out):
    """is out what the files print, each once, up to the first that raises?"""
    todo = collections.Counter((t, e is not None) for t, e in exp)

    # texts that print nothing and do not raise fit everywhere
    todo.pop(('', False), None)
    path, tries = [], [(0, iter(list(todo)))]
    while tries:
        at, xs = tries[-1]
        if at == len(out) and not any(todo.values()):
            return True
        for x in xs:
            if not todo[x] or not out.startswith(x[0], at):
                continue
            end = at + len(x[0])
            if x[1]:
                if end == len(out):
                    return True         # the rest is not read
                continue
            todo[x] -= 1
            path.append(x)
            tries.append((end, iter([y for y in todo if todo[y]])))
            break
        else:
            tries.pop()
            if path:
                todo[path.pop()] += 1
    return False


def large(x):
    return size(x) > 60000


def size(x):
    if isinstance(x, dict):
        x = list(x.values())
    return sum(map(size, x)) if isinstance(x, list) else len(x) if isinstance(x, str) else 0


def alarm(*a):
    raise TooLong('much computing')


def one_job(pkg, harness, inputs, rnd, pool):
    """None, or [obligation, detail]; and the number of obligations"""
    env = ConcEnv(pkg, inputs, rnd, pool)
    # processor time of this process: what else the machine does makes no difference
    env.large = large(inputs)
    signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, 10 * JOB_SECONDS if env.large else JOB_SECONDS)
    try:
        for l in inputs.get('history', ()):
            env.use(env.Record(), l)
        harness(env)
        return None, env.obls
    except Failed as e:
        return [str(e.args[0]), str(e.args[1]) if len(e.args) > 1 else ''], env.obls
    except Undecided:
        return None, env.obls
    except (Exception, TooLong) as e:
        tb = traceback.extract_tb(e.__traceback__)
        return ['undecided', '%s: %s at %s' % (type(e).__name__, str(e)[:100], tb[-1] if tb else '')], env.obls
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def main(jobs, out):
    with open(jobs) as f:
        spec = json.load(f)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        import arinc424 as pkg
        import vspec.harness as h
    harness = getattr(h, spec['property'])
    ConcEnv.parses = spec['property'] == 'C16'
    if spec['property'] in ('C07', 'C19'):
        PRISTINE.start(pkg)
    rnd = random.Random(spec.get('seed', 1))
    res = {'jobs': 0, 'obligations': 0, 'failures': [], 'undecided': 0, 'why': [], 'imported': pkg.__file__}
    limit = spec.get('limit', 5)
    prog = open(out + '.progress', 'w')
    for i, inputs in enumerate(spec['jobs']):
        prog.seek(0)
        prog.write('%-12d' % i)
        prog.flush()
        f, n = one_job(pkg, harness, inputs, rnd, spec.get('pool', []))
        res['jobs'] += 1
        res['obligations'] += n
        if f is not None and f[0] == 'undecided':
            res['undecided'] += 1
            if len(res['why']) < 5:
                res['why'].append(f[1])
        elif f is not None:
            res['failures'].append({'index': i, 'obligation': f[0], 'detail': f[1], 'inputs': inputs})
            if len(res['failures']) >= limit:
                break
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    sys.path[:] = [p for p in sys.path if p != os.path.dirname(os.path.abspath(__file__))]
    sys.stdin = open(os.devnull)
    main(sys.argv[1], sys.argv[2])
