"""Random mutants of /repo that still pass its tests, against the checks of the properties they may break.
   python3 tools/mutate.py SEED COUNT [file ...]     prints caught (by which check) / SURVIVED with the diff"""
import ast, difflib, os, random, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = '/repo/src/arinc424'
ORDER = {'record.py': ['C01', 'C03', 'C06', 'C05', 'C08', 'C02', 'C07', 'C04', 'C16', 'C09', 'C19'],
         'decoder.py': ['C10', 'C11', 'C14', 'C12', 'C15', 'C13', 'C05', 'C16', 'C19'],
         '__init__.py': ['C16', 'C17', 'C18', 'C20'],
         'definitions': ['C03', 'C05', 'C06', 'C10', 'C11', 'C12', 'C14', 'C15', 'C13', 'C01', 'C08']}


def seg(src, n):
    return ast.get_source_segment(src, n)


def candidates(src):
    t = ast.parse(src)
    lines = src.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))

    def pos(n):
        return (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    out = []
    doc = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value))
    infs = set()
    for n in ast.walk(t):
        if isinstance(n, ast.JoinedStr):
            for x in ast.walk(n):
                infs.add(id(x))
    for n in ast.walk(t):
        if id(n) in infs:
            continue
        if isinstance(n, ast.Constant) and id(n) not in doc:
            v = n.value
            if type(v) is bool:
                out.append((pos(n), repr(not v)))
            elif type(v) is int:
                out.append((pos(n), repr(v + 1)))
                if v:
                    out.append((pos(n), repr(v - 1)))
            elif type(v) is str and v:
                out.append((pos(n), repr(v[:-1])))
                out.append((pos(n), repr(v + ' ')))
                if v.swapcase() != v:
                    out.append((pos(n), repr(v.swapcase() if len(v) < 3 else v[:1].swapcase() + v[1:])))
                if len(v) == 1 and v.isalnum():
                    out.append((pos(n), repr(chr(ord(v) + 1))))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(src, n.left), seg(src, n.comparators[0])
            alt = {ast.Eq: ['!=', '>='], ast.NotEq: ['=='], ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'],
                   ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}.get(type(n.ops[0]), [])
            for a in alt:
                out.append((pos(n), '%s %s %s' % (l, a, r)))
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            out.append((pos(n), '(' + j.join(seg(src, v) for v in n.values) + ')'))
            out.append((pos(n), seg(src, n.values[0])))
            out.append((pos(n), seg(src, n.values[-1])))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                f = n.func.attr
                alt = {'strip': ['rstrip', 'lstrip'], 'lstrip': ['strip', 'rstrip'], 'rstrip': ['strip'], 'isnumeric': ['isalnum', 'isdecimal'],
                       'isdigit': ['isalnum'], 'isalpha': ['isalnum', 'isupper'], 'startswith': ['endswith'], 'isspace': ['isalpha']}.get(f, [])
                for a in alt:
                    p = pos(n.func)
                    out.append(((p[1] - len(f), p[1]), a))
                if alt and f.endswith('strip'):
                    out.append((pos(n), seg(src, n.func.value)))
            if len(n.args) == 2:
                out.append(((pos(n.args[0])[0], pos(n.args[1])[1]), '%s, %s' % (seg(src, n.args[1]), seg(src, n.args[0]))))
        elif isinstance(n, ast.IfExp):
            out.append((pos(n), seg(src, n.body)))
            out.append((pos(n), seg(src, n.orelse)))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            out.append((pos(n), seg(src, n.left)))
            out.append((pos(n), seg(src, n.right)))
        elif isinstance(n, ast.Slice) and n.lower is not None and n.upper is not None:
            out.append(((pos(n.lower)[0], pos(n.upper)[1]), seg(src, n.lower) + ':'))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Continue)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((pos(n), 'pass'))
        elif isinstance(n, (ast.List,)) and len(n.elts) > 1:
            k = random.randrange(len(n.elts) - 1)
            a, b = n.elts[k], n.elts[k + 1]
            out.append(((pos(a)[0], pos(b)[1]), '%s, %s' % (seg(src, b), seg(src, a))))
            out.append(((pos(a)[0], pos(b)[0]), ''))
    return out


def main():
    rnd = random.Random(int(sys.argv[1]))
    random.seed(int(sys.argv[1]))
    want = sys.argv[3:]
    files = []
    for root, _, fs in os.walk(PKG):
        for f in fs:
            if f.endswith('.py'):
                files.append(os.path.relpath(os.path.join(root, f), PKG))
    files.sort()
    weight = {'record.py': 10, 'decoder.py': 20, '__init__.py': 6}
    n = 0
    stat = {'caught': 0, 'survived': 0}
    while n < int(sys.argv[2]):
        fl = [f for f in files if not want or any(f.startswith(w) for w in want)]
        f = rnd.choices(fl, [weight.get(x, 0.5) for x in fl])[0]
        src = open(os.path.join(PKG, f)).read()
        c = candidates(src)
        if not c:
            continue
        (a, b), new = rnd.choice(c)
        mut = src[:a] + new + src[b:]
        try:
            compile(mut, f, 'exec')
        except SyntaxError:
            continue
        if ast.dump(ast.parse(mut)) == ast.dump(ast.parse(src)):
            continue
        tmp = tempfile.mkdtemp(prefix='mutant_')
        try:
            subprocess.run(['cp', '-a', '/repo/.', tmp + '/repo'], check=True)
            open(os.path.join(tmp, 'repo/src/arinc424', f), 'w').write(mut)
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=tmp + '/repo',
                               env={'PYTHONPATH': tmp + '/repo/src', 'PYTHONDONTWRITEBYTECODE': '1', 'PATH': os.environ['PATH']}, capture_output=True, text=True, timeout=300)
            if t.returncode:
                continue
            n += 1
            d = [l for l in difflib.unified_diff(src.splitlines(), mut.splitlines(), lineterm='', n=0)][3:]
            by = None
            for p in ORDER[f if '/' not in f else 'definitions']:
                r = subprocess.run(['python3-vt', ROOT + '/check.py', p, '--tier', 'quick'], cwd=ROOT, capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=tmp + '/repo', VERIF_EVIDENCE=tmp + '/ev'))
                if r.returncode not in (0, 1):
                    print('  ERROR', p, r.returncode, r.stderr[-300:])
                if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout:
                    by = p + ('?' if 'no-failing-input' in r.stdout else '')
                    break
            stat['caught' if by else 'survived'] += 1
            print('%s %s | %s' % ('caught ' + by if by else 'SURVIVED', f, ' | '.join(x.strip() for x in d)), flush=True)
        finally:
            shutil.rmtree(tmp)
    print(stat)


main()
