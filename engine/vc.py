"""Discharge of the verification conditions.

Every branch that the exploration found forced is the claim

    c in M1 and ... and c in Mk   |-   c in M

about one character c of the input, where M1..Mk are the constraints the path
has put on c.  The claim is handed to z3 and to cvc5 over code points
(0 .. 0x10FFFF, sets as unions of intervals), independently of the bit masks the
exploration uses.  Claims about counters and about printed text (loop
invariants, what an iteration prints) are handed over as linear arithmetic and
as terms of the theory of strings."""
import subprocess
import tempfile
import time
import os

import sym


def minimise(hist, mask):
    """drop repeated and superseded constraints (only ever fewer premises)"""
    out = []
    for h in hist:
        if h not in out:
            out.append(h)
    return tuple(out)


def intervals(mask):
    """an interval form of a set, over fewer intervals when the complement is smaller"""
    r = sym.CS.to_ranges(mask)
    n = sym.CS.to_ranges(sym.CS.ALL & ~mask)
    return (True, r) if len(r) <= len(n) else (False, n)


def smt2(hist, mask, names, defs):
    def lit(m):
        if m not in names:
            names[m] = 'S%d' % len(names)
            pos, r = intervals(m)
            body = '(or false %s)' % ' '.join('(and (<= %d c) (<= c %d))' % (a, b) for a, b in r)
            if not pos:
                body = '(not %s)' % body
            defs.append('(define-fun %s ((c Int)) Bool %s)' % (names[m], body))
        return '(%s c)' % names[m]
    return '(and %s (not %s))' % (' '.join(lit(h) for h in hist) or 'true', lit(mask))


def script(vcs):
    names, defs, qs = {}, [], []
    for hist, mask in vcs:
        qs.append(smt2(minimise(hist, mask), mask, names, defs))
    head = ['(set-logic QF_LIA)', '(declare-const c Int)', '(assert (and (<= 0 c) (<= c 1114111)))'] + defs
    return head, qs


def z3_check(vcs):
    """(unsat, failed list, seconds)"""
    import z3
    t0 = time.time()
    c = z3.Int('c')
    cache = {}

    def member(m):
        e = cache.get(m)
        if e is None:
            pos, r = intervals(m)
            e = z3.Or([z3.And(c >= a, c <= b) for a, b in r]) if r else z3.BoolVal(False)
            if not pos:
                e = z3.Not(e)
            cache[m] = e
        return e
    s = z3.SolverFor('QF_LIA')
    s.set('timeout', 20000)
    s.add(c >= 0, c <= 0x10ffff)
    ok, bad, unknown = 0, [], []
    for hist, mask in vcs:
        s.push()
        for h in minimise(hist, mask):
            s.add(member(h))
        s.add(z3.Not(member(mask)))
        r = s.check()
        s.pop()
        if r == z3.unsat:
            ok += 1
        elif r == z3.sat:
            bad.append((hist, mask))
        else:
            unknown.append((hist, mask))
    return ok, bad, unknown, time.time() - t0


def _z3_job(vcs):
    return z3_check(vcs)


def discharge(vcs, procs=8):
    """all of them, in parallel"""
    import multiprocessing
    vcs = list({(minimise(h, m), m) for h, m in vcs})
    if not vcs:
        return {'vcs': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'seconds': 0.0}
    chunks = [vcs[i::procs * 4] for i in range(procs * 4)]
    chunks = [x for x in chunks if x]
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        rs = pool.map(_z3_job, chunks)
    return {'vcs': len(vcs), 'unsat': sum(r[0] for r in rs), 'sat': sum(len(r[1]) for r in rs),
            'unknown': sum(len(r[2]) for r in rs), 'seconds': sum(r[3] for r in rs)}


def _cvc5_job(vcs):
    head, qs = script(vcs)
    txt = head[:]
    for q in qs:
        txt += ['(push 1)', '(assert %s)' % q, '(check-sat)', '(pop 1)']
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('\n'.join(txt))
    try:
        p = subprocess.run(['cvc5', '--incremental', '--tlimit-per=20000', f.name], capture_output=True, text=True,
                           timeout=600)
        ans = p.stdout.split()
    except subprocess.TimeoutExpired:
        ans = []
    finally:
        os.unlink(f.name)
    return ans.count('unsat'), ans.count('sat'), len(vcs) - ans.count('unsat') - ans.count('sat'), time.time() - t0


def second_opinion(vcs, procs=8):
    import multiprocessing
    vcs = list({(minimise(h, m), m) for h, m in vcs})
    chunks = [x for x in (vcs[i::procs * 2] for i in range(procs * 2)) if x]
    if not chunks:
        return {'vcs': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'seconds': 0.0}
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        rs = pool.map(_cvc5_job, chunks)
    return {'vcs': len(vcs), 'unsat': sum(r[0] for r in rs), 'sat': sum(r[1] for r in rs),
            'unknown': sum(r[2] for r in rs), 'seconds': sum(r[3] for r in rs)}


def terms(smt):
    """integer and text obligations: {(decls, premises, claim): n}, one script
    per obligation to both solvers"""
    out = {'vcs': len(smt), 'z3': 0, 'cvc5': 0, 'refuted': [], 'seconds': 0.0}
    if not smt:
        return out
    t0 = time.time()
    for decls, pre, claim in smt:
        txt = ['(set-logic ALL)'] + list(decls) + ['(assert %s)' % p for p in pre] + \
            ['(assert (not %s))' % claim, '(check-sat)']
        for tool, cmd in (('z3', ['z3', '-T:20', '-smt2', '-in']),
                          ('cvc5', ['cvc5', '--lang=smt2', '--strings-exp', '--tlimit=20000'])):
            try:
                p = subprocess.run(cmd, input='\n'.join(txt) + '\n', capture_output=True, text=True, timeout=60)
                a = p.stdout.split()
            except (subprocess.TimeoutExpired, OSError):
                a = []
            if a[:1] == ['unsat']:
                out[tool] += 1
            elif a[:1] == ['sat']:
                out['refuted'].append('%s: %s' % (tool, claim))
    out['seconds'] = time.time() - t0
    return out
