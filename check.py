#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]     decide one property
check.py --replay FILE                          run a reported violation again

Exit 0: the property held.  Exit 1 and a VIOLATION line: it does not.
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = sys.executable
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
sys.path.insert(0, HERE)

# properties whose symbolic inputs are not a line: earlier history, contracts of
# callees, loops over files.  A failed obligation there is reported even when
# no failing input was found.
ABSTRACT = {'C07', 'C09', 'C16', 'C17', 'C18', 'C19', 'C20'}
FILES = {'C17', 'C18', 'C20'}
TIERS = {'quick': {'prove': 300, 'corpus': 6000, 'bounded': 40000, 'models': 6000},
         'thorough': {'prove': 1500, 'corpus': 120000, 'bounded': 400000, 'models': 6000}}

ASSUME = {
    '*': ['CPython executes the instrumented operations as engine/rt.py and engine/sym.py model them (str methods, '
          'slicing, dict lookup, int/float/str/format of decimal texts); cross-checked on every run against CPython '
          'on one concrete input per path',
          'the character classes are those of the Unicode tables of the Python that runs the check',
          'texts longer than 172 characters are represented by their first and last characters and their length',
          'int and float of digit texts up to 15 digits are exact; other numeric texts are uninterpreted',
          'numerals other than 0-9 in the last nine columns, in numeric fields and as continuation number are '
          'outside the specified domain'],
    'C09': ['field decoders by contract (a text determined by decoder, value and record, or ValueError): discharged by C13 and C19',
            'PrettyTable.get_string is a function of its header, alignment and rows'],
    'C19': ['field decoders by contract (discharged here per decoder: no effect, same text twice)'],
    'C16': ['Record.decode by contract (C09, C13, C19)'],
    'C17': ['Record.read and Record.decode by contract (C01, C02, C04, C09, C13)', 'open().readlines() yields the lines in order'],
    'C18': ['Record.read by contract (its verdict: C01, C02; the text it keeps: discharged here)', 'open().readlines() yields the lines in order',
            'filters: one text, or a list of any number of texts', 'termcolor.colored is a function of its arguments'],
    'C20': ['read_file by contract (C17)', 'os.scandir yields every entry of the folder once', 'every entry of the folder is a file, a folder or a link to one'],
    'C08': ['json.dumps is injective and invertible on dictionaries of texts; keys of the object are compared as a dictionary'],
}
TRUST = ['CPython 3.12', 'engine/ (extraction, models, path exploration)', 'vspec/ (contracts)', 'z3', 'cvc5',
         'prettytable, termcolor, json (modelled as functions of their arguments)']


class Box:
    """scratch folder of one run"""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif-check-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def prove(prop, seconds, box):
    out = os.path.join(box, 'prove.json')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    p = subprocess.Popen([VT, os.path.join(HERE, 'engine', 'prove.py'), prop, str(seconds), out], env=env,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    try:
        p.wait(timeout=seconds + 120)
    except subprocess.TimeoutExpired:
        pass
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    try:
        with open(out) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {'error': 'the verifier did not finish'}


def concrete(prop, jobs, pool, seed, box, shards=8, limit=3, timeout=300):
    """the harness on the real code, in fresh processes"""
    env = {k: v for k, v in os.environ.items() if k not in ('NO_COLOR', 'PYTHONPATH')}
    env.update(PYTHONPATH=os.path.join(REPO, 'src') + ':' + HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1',
               FORCE_COLOR='1', PYTHONHASHSEED='0', PYTHONSAFEPATH='1')
    shards = max(1, min(shards, len(jobs)))
    ps = []
    for s in range(shards):
        part = jobs[s::shards]
        f = os.path.join(box, 'jobs%d-%d.json' % (s, time.monotonic_ns()))
        with open(f, 'w') as fh:
            json.dump({'property': prop, 'seed': '%s %d' % (seed, s), 'pool': pool, 'jobs': part, 'limit': limit}, fh)
        p = subprocess.Popen([PY, os.path.join(HERE, 'conc', 'run.py'), f, f + '.out'], env=env, cwd=box,
                             stdout=subprocess.DEVNULL, stderr=open(f + '.err', 'w'), stdin=subprocess.DEVNULL,
                             start_new_session=True)
        ps.append((p, f, part))
    total = {'jobs': 0, 'obligations': 0, 'failures': [], 'undecided': 0, 'why': [], 'dead': []}
    end = time.time() + timeout
    for p, f, part in ps:
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            total['why'].append('time limit of a shard')
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        try:
            with open(f + '.out') as fh:
                r = json.load(fh)
        except (OSError, ValueError):
            if p.returncode != -signal.SIGKILL:
                err = open(f + '.err').read()[-600:]
                try:
                    i = int(open(f + '.out.progress').read())
                    total['failures'].append({'obligation': 'control returns to the caller', 'inputs': part[i],
                                              'detail': 'interpreter ended with %s: %s' % (p.returncode, err),
                                              'history': part[:i]})
                except (OSError, ValueError, IndexError):
                    total['dead'].append(err)
            continue
        for k in ('jobs', 'obligations', 'undecided'):
            total[k] += r[k]
        total['why'] += r['why']
        for x in r['failures']:
            x['history'] = part[:x['index']]
            total['failures'].append(x)
    return total


def confirm(prop, fail, pool, seed, box):
    """does it fail again in a fresh process: alone, or after its history?"""
    h = fail.get('history', [])
    for n in [0, 1, 2, 5, 20, 100, len(h)]:
        if n > len(h):
            n = len(h)
        r = concrete(prop, h[len(h) - n:] + [fail['inputs']], pool, seed, box, shards=1, limit=10 ** 9)
        for x in r['failures']:
            if x['inputs'] == fail['inputs']:
                return {'obligation': x['obligation'], 'detail': x['detail'], 'inputs': x['inputs'],
                        'history': h[len(h) - n:]}
        if n == len(h):
            break
    return None


def known(prop):
    out = []
    try:
        with open(os.path.join(HERE, 'known-findings.txt')) as f:
            for l in f:
                if l.startswith('finding: '):
                    d = json.loads(l[9:])
                    if d['property'] == prop:
                        out.append(d)
    except OSError:
        pass
    return out


def matches(finding, fail):
    return finding['obligation'] == fail['obligation'] and finding['inputs'] == fail['inputs']


def write_replay(prop, n, data):
    d = os.path.join(EVID, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.json' % (prop, n))
    with open(p, 'w') as f:
        json.dump(data, f, indent=1, default=repr)
    return p


def check(prop, tier, seed):
    t0 = time.time()
    from conc import gen
    T = TIERS[tier]
    budget = 820 if tier == 'quick' else 6 * 3600
    left = lambda: budget - (time.time() - t0)
    violations = []
    notes = []
    undecided = []
    finds = known(prop)
    hit = []

    with Box() as box:
        pr = prove(prop, T['prove'], box)
        n = {'obl': sum(pr.get('obligations', {}).values()), 'vcs': pr.get('z3', {}).get('vcs', 0),
             'terms': pr.get('terms', {}).get('vcs', 0)}
        if 'error' in pr:
            undecided.append('verifier: ' + pr['error'])
        for k, c in pr.get('unsupported', {}).items():
            undecided.append('%s (%d paths)' % (k, c))
        for k, c in pr.get('frames', {}).items():
            undecided.append('package state %s changes (%d paths)' % (k, c))
        z, c5, tm = pr.get('z3', {}), pr.get('cvc5', {}), pr.get('terms', {})
        if z.get('sat') or c5.get('sat') or tm.get('refuted'):
            undecided.append('a solver refutes a branch condition of the exploration')
        elif z.get('unknown') or tm.get('z3', 0) != tm.get('vcs', 0):
            undecided.append('z3 gives no answer on %d conditions' % (z.get('unknown', 0) + tm['vcs'] - tm['z3']))
        if not n['obl'] and 'error' not in pr:
            undecided.append('no obligation was generated')

        # counterexamples of the verifier, on the real code
        pool, corpus = gen.jobs(prop, seed, T['corpus'], REPO)
        fails = pr.get('failures', [])
        replayed = []
        found = [[x for x in f['inputs'] if prop not in FILES or 'line' in x] for f in fails]
        if any(found):
            seen, jobs = set(), []
            for k in range(60):
                for f in found:
                    if k < len(f):
                        x = json.dumps(f[k], sort_keys=True)
                        if x not in seen and len(jobs) < 4000:
                            seen.add(x)
                            jobs.append(f[k])
            if prop in ABSTRACT:
                jobs = [dict(j) for j in jobs for _ in range(10)]
            r = concrete(prop, jobs, pool, seed, box, timeout=min(200, max(20, left())))
            replayed = r['failures']
        # cross-check: one input per path, and the corpus
        models = [x for x in pr.get('models', []) if prop not in FILES or 'line' in x][:T['models']]
        cross = concrete(prop, models + corpus, pool, seed, box, timeout=min(250, max(30, left())) if tier == 'quick' else 3000)
        if cross['dead']:
            undecided.append('the package cannot be run: ' + cross['dead'][0][-200:])
        bounded = None
        if (undecided or fails) and not replayed and not cross['failures'] and left() > 60:
            p2, c2 = gen.jobs(prop, '%s bounded' % seed, T['bounded'], REPO)
            if pr.get('frame_models'):
                c2 = gen.after_others(prop, seed, pr['frame_models'], REPO) + c2[:len(c2) // 2]
            bounded = concrete(prop, c2, p2, seed, box, timeout=min(330, max(30, left() - 40)) if tier == 'quick' else 7200)
        for src in (replayed, cross['failures'], bounded['failures'] if bounded else []):
            by = {}
            for f in src:
                by.setdefault(f['obligation'], f)
            for f in list(by.values())[:3]:
                if violations and left() < 60:
                    break
                c = confirm(prop, f, pool, seed, box)
                if c is None:
                    notes.append('a failure did not happen again: ' + f['obligation'])
                    undecided.append('a failure that did not happen again')
                    continue
                k = [x for x in finds if matches(x, c)]
                if k:
                    hit += k
                    continue
                violations.append((c, True))
            if violations:
                break
        # a failed obligation with no failing input
        if fails and not violations:
            f = fails[0]
            what = '%s%s' % (f['obligation'], ' (%s)' % f['detail'] if f.get('detail') else '')
            exact = [x for x in fails if not x.get('approx')]
            if prop in ABSTRACT and exact and not pr.get('unsupported'):
                violations.append(({'obligation': exact[0]['obligation'], 'detail': exact[0].get('detail'),
                                    'inputs': exact[0]['inputs'][:3]}, False))
            else:
                undecided.append('obligation not discharged, and its counterexamples pass on the real code: ' + what)

    ran = [x for x in (cross, bounded) if x]
    conc_jobs = sum(x['jobs'] for x in ran)
    if prop in FILES:
        conc_unit = 'files'
    else:
        conc_unit = 'lines'
    und_paths = sum(pr.get('unsupported', {}).values())
    nvc = n['vcs'] + n['terms']
    obligations = n['obl'] + nvc + und_paths
    discharged = n['obl'] - pr.get('nfailures', 0) + z.get('unsat', 0) + tm.get('z3', 0)
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
        'trusted_base': TRUST,
        'obligations_by_name': pr.get('obligations', {}),
        'paths': pr.get('paths', 0), 'decoder_contracts': pr.get('contracts', 0), 'decoder_paths': pr.get('subpaths', 0),
        'functions_under_contract': len(pr.get('functions', [])), 'functions': pr.get('functions', []),
        'layouts_reached': len(pr.get('covered', {})),
        'solver': {'z3': {k: z.get(k, 0) for k in ('vcs', 'unsat', 'sat', 'unknown')} | {'seconds': round(z.get('seconds', 0), 2)},
                   'cvc5': {k: c5.get(k, 0) for k in ('vcs', 'unsat', 'sat', 'unknown')} | {'seconds': round(c5.get('seconds', 0), 2)},
                   'integer_and_text_terms': {k: tm.get(k, 0) for k in ('vcs', 'z3', 'cvc5')} | {'seconds': round(tm.get('seconds', 0), 2)}},
        'loop_invariants': pr.get('invariants', {}),
        'over_approximated_paths': pr.get('approx', {}),
        'explore_s': pr.get('explore_s', 0), 'load_s': pr.get('load_s', 0),
        'cross_check': {'what': 'the same harness on the unmodified code under CPython', conc_unit: cross['jobs'],
                        'path_models': len(models), 'ensures': cross['obligations'], 'undecided': cross['undecided']},
        'undecided': undecided, 'notes': notes,
        'repo': REPO,
    }
    level = 'proof'
    if undecided:
        level = 'exploration'
        cov['bounded'] = 'NOT PROVED on this run: a bounded check on the real code stands in for the undecided part'
        cov['evaluations'] = conc_jobs
        cov['distinct_nontrivial'] = sum(x['obligations'] for x in ran)
        cov['rule'] = 'lines, files and folders drawn from the layouts and code tables of the contracts (conc/gen.py); ' \
                      'non-trivial: an ensures clause of the property was evaluated'
        cov['samples'] = corpus[:3]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ASSUME['*'] + ASSUME.get(prop, []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(violations)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for k in hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k.get('what', k['obligation'])))
    print('%s: %d obligations, %d discharged, %d functions, %d paths, z3 %d/%d, cvc5 %d/%d, terms %d/%d, concrete %d, %.1f s' % (
        prop, obligations, discharged, cov['functions_under_contract'], cov['paths'], z.get('unsat', 0), z.get('vcs', 0),
        c5.get('unsat', 0), c5.get('vcs', 0), tm.get('z3', 0), tm.get('vcs', 0), conc_jobs, time.time() - t0))
    for u in undecided[:5]:
        print('undecided: ' + u)
    if not violations:
        return 0
    for i, (v, real) in enumerate(violations[:3]):
        data = dict(v, property=prop, replayed_on_real_code=real, repo=REPO,
                    verifier={'failures': fails[:3], 'unsupported': pr.get('unsupported', {}), 'error': pr.get('error')},
                    run='python3-vt check.py --replay <this file>')
        path = write_replay(prop, i + 1, data)
        print('failed obligation: %s  %s' % (v['obligation'], v.get('detail') or ''))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if real else ' no-failing-input-found'))
    return 1


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if not d.get('replayed_on_real_code'):
        print('no failing input was found; the obligation that failed: ' + d['obligation'])
        return 1
    with Box() as box:
        r = concrete(d['property'], d.get('history', []) + [d['inputs']], [], 1, box, shards=1, limit=10 ** 9)
    for x in r['failures']:
        if x['inputs'] == d['inputs']:
            print('fails: %s  %s' % (x['obligation'], x['detail']))
            return 1
    print('passes')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=sorted(TIERS))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    try:
        return check(a.property, a.tier, seed)
    except Exception:
        import traceback
        traceback.print_exc()
        return 2            # no answer


if __name__ == '__main__':
    sys.exit(main())
