"""Mechanical extraction: the modules of the code under verification are read
from /repo's working tree on every run and every operation whose operands may
be symbolic is routed through rt.py.  Nothing is dropped and nothing is
rewritten by hand: control flow, assignments, attribute access, exceptions and
arithmetic operators stay CPython's own.

  f(x)        -> rt.call(f, x)          (except super(), locals() and friends)
  o[i]        -> rt.getitem(o, i)       (loads)
  o[i] = v    -> rt.setitem(o, i, v)    (single-target stores)
  a in b      -> rt.contains(a, b)
  a % b       -> rt.mod(a, b)
  f'..{x}..'  -> rt.fstring(..)
  for ...     -> the iterable goes through rt.loop_iter; the loop-carried
                 names can be havocked at the head and at the exit (loop cut)
  except:     -> engine exceptions are passed on
"""
import ast
import copy
import importlib.abc
import importlib.util
import os
import sys
import types

import rt

KEEP = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__'}


def _rt(name):
    return ast.Attribute(ast.Name('_rt_', ast.Load()), name, ast.Load())


def _call(name, *args):
    return ast.Call(_rt(name), list(args), [])


class Names(ast.NodeVisitor):
    def __init__(self, counted=()):
        self.names = []
        self.counted = counted

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store) and n.id not in self.names:
            self.names.append(n.id)

    def visit_Attribute(self, n):
        """a list that only grows counts as changed"""
        self.generic_visit(n)
        if n.attr == 'append' and isinstance(n.value, ast.Name) and n.value.id in self.counted and n.value.id not in self.names:
            self.names.append(n.value.id)

    def visit_FunctionDef(self, n):
        pass
    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

    def visit_comp(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.visit(x.target)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_comp


def accumulators(fn):
    """for loops of a function that do nothing but append to a list that was
    created empty before, by the id of the loop: what a generator of the
    appended elements followed by list() would do"""
    out = {}
    loads, stores = {}, {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name):
            (loads if isinstance(x.ctx, ast.Load) else stores).setdefault(x.id, []).append(x)
        elif isinstance(x, (ast.Global, ast.Nonlocal)) or isinstance(x, ast.Delete):
            return {}

    def visit(stmts):
        for s in stmts:
            if isinstance(s, ast.For):
                a = accumulator(s)
                if a:
                    out[id(s)] = a
            elif isinstance(s, (ast.With, ast.If)):
                visit(s.body)
                visit(getattr(s, 'orelse', []))

    def accumulator(f):
        if f.orelse:
            return None
        inside = set(map(id, ast.walk(f)))
        adds, own = [], set()
        for x in ast.walk(f):
            if isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.FunctionDef, ast.ClassDef,
                              ast.Import, ast.ImportFrom, ast.AsyncFunctionDef)) or isinstance(x, ast.Name) and x.id in KEEP:
                return None
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) \
                    and x.value.func.attr == 'append' and isinstance(x.value.func.value, ast.Name) \
                    and len(x.value.args) == 1 and not x.value.keywords and not isinstance(x.value.args[0], ast.Starred):
                adds.append(x)
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                own.add(x.id)
        names = {x.value.func.value.id for x in adds}
        if len(names) != 1:
            return None
        acc = names.pop()
        use = {id(x.value.func.value) for x in adds}
        if any(id(x) in inside and id(x) not in use for x in loads[acc]) or len(stores.get(acc, ())) != 1:
            return None
        if not any(isinstance(x, ast.Assign) and len(x.targets) == 1 and x.targets[0] is stores[acc][0]
                   and isinstance(x.value, ast.List) and not x.value.elts for x in ast.walk(fn)):
            return None
        at = lambda x: (x.lineno, x.col_offset)
        if at(stores[acc][0]) > at(f) or any(at(x) < at(f) for x in loads[acc]):
            return None
        if any(id(x) not in inside and not bound(x, f) for n in own for x in loads.get(n, []) + stores.get(n, [])):
            return None
        outside = [x for x in loads[acc] if id(x) not in inside]
        sizes = [c.args[0] for c in ast.walk(fn) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name)
                 and c.func.id == 'len' and len(c.args) == 1]
        if all(any(x is y for y in sizes) for x in outside):
            return None                 # its length is all that matters
        return acc

    def bound(x, f):
        """a use of a name after the loop, inside a loop over something else that binds it"""
        if (x.lineno, x.col_offset) < (f.end_lineno, f.end_col_offset):
            return False
        for g in ast.walk(fn):
            if isinstance(g, ast.For) and g is not f and not any(y is f for y in ast.walk(g)):
                t, parts = g.target, [g.target] + g.body
            elif isinstance(g, (ast.ListComp, ast.GeneratorExp)) and len(g.generators) == 1:
                t, parts = g.generators[0].target, [g.elt, g.generators[0].target] + g.generators[0].ifs
            else:
                continue
            if any(isinstance(y, ast.Name) and y.id == x.id for y in ast.walk(t)) and any(
                    y is x for p in parts for y in ast.walk(p)):
                return True
        return False
    visit(fn.body)
    return out


def counted(fn):
    """lists of a function that are created empty, grow, and of which only the length matters"""
    loads, stores, good, fresh = {}, {}, set(), set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Name):
            (loads if isinstance(x.ctx, ast.Load) else stores).setdefault(x.id, []).append(x)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            return set()
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.value, ast.List) and not x.value.elts:
            fresh.add(id(x.targets[0]))
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) \
                and x.value.func.attr == 'append':
            good.add(id(x.value.func.value))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('len', 'bool') and len(x.args) == 1:
            good.add(id(x.args[0]))
        if isinstance(x, (ast.If, ast.IfExp, ast.While)):
            good.add(id(x.test))
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            good.add(id(x.operand))
    return {n for n in stores if all(id(x) in fresh for x in stores[n]) and all(id(x) in good for x in loads.get(n, ()))}


class Yields(ast.NodeTransformer):
    def __init__(self, acc):
        self.acc = acc

    def visit_Expr(self, n):
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' \
                and isinstance(c.func.value, ast.Name) and c.func.value.id == self.acc:
            return ast.copy_location(ast.Expr(ast.Yield(c.args[0])), n)
        return n


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.loops = 0
        self.infunc = 0
        self.accs = {}
        self.counted = set()
        self.fn = None

    def visit_FunctionDef(self, n):
        self.accs.update(accumulators(n))
        was, self.counted, self.fn = (self.counted, self.fn), counted(n), n
        try:
            return self.function(n)
        finally:
            self.counted, self.fn = was

    def function(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.returns = None
        self.infunc += 1
        n.body = self.body(n.body)
        self.infunc -= 1
        return n

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_AnnAssign(self, n):
        if not self.infunc:
            self.generic_visit(n)
            return n
        n.annotation = ast.Constant(None)
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        n.annotation = None
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in KEEP:
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        return ast.copy_location(ast.Call(_rt('call'), [n.func] + n.args, n.keywords), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            return n
        return ast.copy_location(_call('getitem', n.value, self.index(n.slice)), n)

    def index(self, s):
        if isinstance(s, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(None)
            return ast.Call(_rt('mkslice'), [none(s.lower), none(s.upper), none(s.step)], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self.index(e) for e in s.elts], ast.Load())
        return s

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            # CPython evaluates the value first
            return ast.copy_location(ast.Expr(_call('setitem3', n.value, t.value, self.index(t.slice))), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], _call('mod', ast.Name(n.target.id, ast.Load()), n.value)), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = _call('contains', n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_call('mod', n.left, n.right), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(_call('fstring', *parts), n)

    def visit_For(self, n):
        acc = self.accs.pop(id(n), None)
        if acc:
            return self.accumulate(n, acc)
        self.loops += 1
        site = '%s:%d' % (self.mod, self.loops)
        n.iter = self.visit(n.iter)
        n.target = self.visit(n.target)
        n.body = self.body(n.body)
        n.orelse = self.body(n.orelse)
        v = Names(self.counted)
        for s in n.body:
            v.visit(s)
        names = v.names
        tv = Names(self.counted)
        tv.visit(n.target)
        targets = tv.names
        loc = ast.Call(ast.Name('locals', ast.Load()), [], [])
        n.iter = _call('loop_iter', ast.Constant(site), n.iter, loc, ast.Constant(tuple(names)), ast.Constant(tuple(targets)))

        if self.infunc:
            n.body = self.rebind('loop_head', site, names, [loc]) + n.body
            return [n] + self.rebind('loop_exit', site, names + [t for t in targets if t not in names], [loc])
        return n

    def visit_Expr(self, n):
        """a comprehension for the sake of its effects is a loop"""
        c = n.value
        if self.infunc and isinstance(c, (ast.ListComp, ast.SetComp)) and len(c.generators) == 1 and not c.generators[0].is_async:
            g = c.generators[0]
            inside = set(map(id, ast.walk(c)))
            own = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if not any(isinstance(x, ast.Name) and x.id in own and id(x) not in inside or isinstance(x, ast.arg) and x.arg in own
                       for x in ast.walk(self.fn)) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(c)):
                body = [ast.Expr(c.elt)]
                for t in reversed(g.ifs):
                    body = [ast.If(t, body, [])]
                f = ast.copy_location(ast.For(g.target, g.iter, body, []), n)
                ast.fix_missing_locations(f)
                return self.visit(f)
        if self.infunc and isinstance(c, ast.Call) and len(c.args) == 1 and not isinstance(c.args[0], ast.Starred) \
                and isinstance(c.func, (ast.Name, ast.Attribute)) \
                and (c.func.id if isinstance(c.func, ast.Name) else c.func.attr) in ('list', 'tuple', 'deque') \
                and all(k.arg == 'maxlen' and isinstance(k.value, ast.Constant) and k.value.value == 0 for k in c.keywords):
            # a sequence that is made and forgotten: its elements are computed one by one
            loop = ast.For(ast.Name('_forgotten_', ast.Store()), copy.deepcopy(c.args[0]), [ast.Pass()], [])
            test = _call('is_consumer', self.visit(copy.deepcopy(c.func)))
            plain = ast.Expr(self.visit(c))
            r = ast.copy_location(ast.If(test, self.visit_For_list(ast.fix_missing_locations(ast.copy_location(loop, n))), [plain]), n)
            return ast.fix_missing_locations(r)
        self.generic_visit(n)
        return n

    def accumulate(self, n, acc):
        """a list of the elements of a sequence of unknown length"""
        self.loops += 1
        site = '%s:%d' % (self.mod, self.loops)
        one = Yields(acc).visit(copy.deepcopy(n))
        one.iter = ast.Name('_src_', ast.Load())
        fn = ast.FunctionDef('_acc_', ast.arguments([], [ast.arg('_src_')], None, [], [], None, []),
                             self.visit_For_list(one), [], None)
        it = ast.Name('_it%d_' % self.loops, ast.Load())
        src = self.visit(n.iter)
        n.iter = it
        # fn's loop has its own number
        plain = self.visit_For_list(n)
        return [ast.copy_location(ast.Assign([ast.Name(it.id, ast.Store())], src), n),
                ast.copy_location(ast.If(_call('unbounded', it, ast.Name(acc, ast.Load())),
                                         [fn, ast.Assign([ast.Name(acc, ast.Store())],
                                                         _call('list_comp', ast.Constant(site), it,
                                                               ast.Name('_acc_', ast.Load()), ast.Constant(None)))],
                                         plain), n)]

    def visit_For_list(self, n):
        r = self.visit_For(n)
        return r if isinstance(r, list) else [r]

    def visit_While(self, n):
        self.loops += 1
        site = '%s:%d' % (self.mod, self.loops)
        index = any(isinstance(x, ast.Subscript) for x in ast.walk(n))
        n.test = self.visit(n.test)
        n.body = self.body(n.body)
        n.orelse = self.body(n.orelse)
        if not self.infunc or n.orelse:
            return n
        v = Names(self.counted)
        v.visit(n.test)
        for s in n.body:
            v.visit(s)
        names = v.names
        loc = ast.Call(ast.Name('locals', ast.Load()), [], [])
        reads = 'readline' if any(isinstance(x, ast.Attribute) and x.attr == 'readline' for x in ast.walk(n)) else index
        n.body = self.rebind('while_head', site, names, [loc, ast.Constant(tuple(names)), ast.Constant(reads)]) + [
            ast.If(n.test, [ast.Pass()], [ast.Break()])] + n.body
        n.test = ast.Constant(True)
        return [n] + self.rebind('loop_exit', site, names, [loc])

    def visit_YieldFrom(self, n):
        self.generic_visit(n)
        self.loops += 1
        n.value = _call('loop_iter', ast.Constant('%s:%d' % (self.mod, self.loops)), n.value, ast.Dict([], []),
                        ast.Constant(()), ast.Constant(()))
        return n

    def visit_GeneratorExp(self, n):
        return self.comprehension(n, 'gen_exp')

    def visit_ListComp(self, n):
        return self.comprehension(n, 'list_comp')

    def comprehension(self, n, fn):
        """the elements one by one as well, for a sequence of unknown length"""
        if not self.infunc or len(n.generators) != 1 or n.generators[0].is_async or any(
                isinstance(x, (ast.NamedExpr, ast.Await)) or isinstance(x, ast.Name) and x.id in KEEP
                for x in ast.walk(n)):
            self.generic_visit(n)
            return n
        self.loops += 1
        site = ast.Constant('%s:%d' % (self.mod, self.loops))
        src = self.visit(n.generators[0].iter)
        n.generators[0].iter = ast.Name('_src_', ast.Load())
        self.generic_visit(n)
        one = ast.GeneratorExp(copy.deepcopy(n.elt), copy.deepcopy(n.generators))
        one.generators[0].iter = _call('loop_iter', site, ast.Name('_src_', ast.Load()), ast.Dict([], []),
                                       ast.Constant(()), ast.Constant(()))

        def lam(body):
            return ast.Lambda(ast.arguments([], [ast.arg('_src_')], None, [], [], None, []), body)
        return ast.copy_location(_call(fn, site, src, lam(one), lam(n)), n)

    def rebind(self, fn, site, names, args):
        out = [ast.Assign([ast.Name('_hv_', ast.Store())], _call(fn, ast.Constant(site), *args))]
        inner = []
        for x in names:
            inner.append(ast.If(
                ast.Compare(ast.Constant(x), [ast.In()], [ast.Name('_hv_', ast.Load())]),
                [ast.Assign([ast.Name(x, ast.Store())],
                            ast.Subscript(ast.Name('_hv_', ast.Load()), ast.Constant(x), ast.Load()))], []))
        out.append(ast.If(ast.Name('_hv_', ast.Load()), inner or [ast.Pass()], []))
        return [ast.If(ast.Compare(_rt('LOOP'), [ast.IsNot()], [ast.Constant(None)]), out, [])]

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        t = n.type
        names = []
        if t is None:
            names = ['BaseException']
        else:
            for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                if isinstance(x, ast.Name):
                    names.append(x.id)
        if 'BaseException' in names:
            g = ast.Expr(_call('guard_current'))
            n.body = [g] + n.body
        return n


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    t = Transform(modname)
    tree = t.visit(tree)
    body = tree.body
    # after the docstring and __future__ imports
    i = 0
    while i < len(body) and (isinstance(body[i], ast.ImportFrom) and body[i].module == '__future__' or
                             (i == 0 and isinstance(body[i], ast.Expr) and isinstance(body[i].value, ast.Constant))):
        i += 1
    body.insert(i, ast.ImportFrom('__verif_rt', [ast.alias('rt', '_rt_')], 0))
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        exec(transform(src, self.path, m.__name__), m.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """instrumented loading of the packages in `roots`: {top name: directory
    that contains it}"""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, name, path, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, f, loader=Loader(f), submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=Loader(base + '.py'))
        return None


def install(roots):
    sys.dont_write_bytecode = True
    m = types.ModuleType('__verif_rt')
    m.rt = rt
    sys.modules['__verif_rt'] = m
    pt = types.ModuleType('prettytable')
    pt.PrettyTable = rt.TableModel
    sys.modules['prettytable'] = pt
    tc = types.ModuleType('termcolor')
    tc.colored = rt.colored
    sys.modules['termcolor'] = tc
    sys.meta_path.insert(0, Finder(roots))


def literals(dirs):
    """every non-ASCII character of a string constant in the sources"""
    out = set()
    n = 0
    for d in dirs:
        for root, _, files in os.walk(d):
            for f in files:
                if f.endswith('.py'):
                    with open(os.path.join(root, f), encoding='utf-8') as fh:
                        for x in ast.walk(ast.parse(fh.read())):
                            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                n += 1
                                out.update(c for c in x.value if ord(c) > 127)
    return ''.join(sorted(out))
