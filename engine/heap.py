"""State of the package under verification outside the objects of a harness:
module globals, class attributes, the shared definition objects, function
defaults and closures.  Snapshot, frame check, restore."""
import collections
import operator
import sys
import types


class Heap:
    def __init__(self, prefix='arinc424'):
        self.items = []
        seen = set()

        def walk(o, path, d):
            if d > 12 or id(o) in seen:
                return
            t = type(o)
            if t in (str, int, float, bool, bytes, type(None), types.BuiltinFunctionType, types.ModuleType):
                return
            if t in (tuple, frozenset):
                seen.add(id(o))
                self.keep.append(o)
                for x in o:
                    walk(x, path, d + 1)
                return
            if isinstance(o, dict):
                seen.add(id(o))
                self.items.append((o, 'dict', dict(o), path))
                for k, v in list(o.items()):
                    walk(v, '%s[%r]' % (path, k), d + 1)
                return
            if t in (list, collections.deque):
                seen.add(id(o))
                self.items.append((o, 'list', list(o), path))
                for i, v in enumerate(o):
                    walk(v, '%s[%d]' % (path, i), d + 1)
                return
            if t is set:
                seen.add(id(o))
                self.items.append((o, 'set', set(o), path))
                return
            if t is types.FunctionType:
                if not (o.__module__ or '').startswith(prefix):
                    return
                seen.add(id(o))
                for x in (o.__defaults__ or ()):
                    walk(x, path + '.__defaults__', d + 1)
                for x in (o.__kwdefaults__ or {}).values():
                    walk(x, path + '.__kwdefaults__', d + 1)
                walk(o.__dict__, path + '.__dict__', d + 1)
                for c in (o.__closure__ or ()):
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    self.items.append((c, 'cell', v, path + '.<closure>'))
                    walk(v, path + '.<closure>', d + 1)
                return
            if t in (staticmethod, classmethod):
                walk(o.__func__, path, d)
                return
            if isinstance(o, type):
                if not (o.__module__ or '').startswith(prefix):
                    return
                seen.add(id(o))
                self.items.append((o, 'class', dict(vars(o)), path))
                for k, v in list(vars(o).items()):
                    if k not in ('__dict__', '__weakref__'):
                        walk(v, '%s.%s' % (path, k), d + 1)
                return
            if (type(o).__module__ or '').startswith(prefix):
                seen.add(id(o))
                dd = getattr(o, '__dict__', None)
                if dd is not None:
                    self.keep.append(o)
                    walk(dd, path, d + 1)
        self.keep = []
        for n in sorted(sys.modules):
            m = sys.modules[n]
            if n == prefix or n.startswith(prefix + '.'):
                walk(m.__dict__, n, 0)

    def changed(self):
        out = []
        for it in self.items:
            o, kind, old, path = it
            if kind == 'dict':
                if len(o) == len(old) and all(map(operator.is_, o.values(), old.values())) and \
                        (o.keys() == old.keys()):
                    continue
            elif kind == 'list':
                if len(o) == len(old) and all(map(operator.is_, o, old)):
                    continue
            elif kind == 'set':
                if o == old:
                    continue
            elif kind == 'cell':
                if o.cell_contents is old:
                    continue
            else:
                cur = vars(o)
                if len(cur) == len(old) and all(cur.get(k, self) is v for k, v in old.items()):
                    continue
            out.append(it)
        return out

    def restore(self, changed=None):
        for o, kind, old, path in (self.changed() if changed is None else changed):
            if kind == 'dict':
                dict.clear(o)
                dict.update(o, old)
            elif kind == 'list':
                o.clear()
                o.extend(old)
            elif kind == 'set':
                o.clear()
                o.update(old)
            elif kind == 'cell':
                o.cell_contents = old
            else:
                cur = dict(vars(o))
                for k in cur:
                    if k not in old:
                        delattr(o, k)
                for k, v in old.items():
                    if cur.get(k, self) is not v:
                        setattr(o, k, v)

    def describe(self, changed, side, observed):
        """the changes that another operation of the package could observe"""
        out = []
        for o, kind, old, path in changed:
            if kind == 'dict' and isinstance(o, collections.defaultdict) and id(o) not in observed:
                new = {k: v for k, v in o.items() if k not in old}
                if all(o.get(k) is v for k, v in old.items()) and \
                        all(v == o.default_factory() for v in new.values()):
                    continue      # default entries of a dict that is only ever subscripted
            out.append(path)
        ids = {id(o): (o, path) for o, kind, old, path in self.items if kind == 'dict'}
        for i, l in side.items():
            if i in ids and l:
                o, path = ids[i]
                if isinstance(o, collections.defaultdict) and i not in observed:
                    d = o.default_factory()
                    if all(v == d for (_, _, v) in l):
                        continue
                out.append(path)
        return out
