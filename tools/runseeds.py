"""Run the check of each planted change's property (or, with --all, every check) on a scratch copy with the change.
   python3 tools/runseeds.py [--all] [id ...]      prints caught / MISSED"""
import json, os, subprocess, sys, shutil, tempfile, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
ALL = '--all' in sys.argv
missed = 0
for id in sorted(os.listdir(ROOT + '/seeded')):
    if args and id not in args:
        continue
    d = f'{ROOT}/seeded/{id}'
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.run('mkdir %s/repo; git -C /repo archive HEAD | tar -x -C %s/repo' % (tmp, tmp), shell=True, check=True)
        subprocess.run(['git', '-C', tmp + '/repo', 'apply', d + '/patch.diff'], check=True)
        res = {}
        for p in ([f'C{i:02}' for i in range(1, 21)] if ALL else [prop]):
            r = subprocess.run(['python3-vt', ROOT + '/check.py', p, '--tier', 'quick'], cwd=ROOT, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=tmp + '/repo', VERIF_EVIDENCE=tmp + '/ev'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            k = '-' if r.returncode == 0 and not v else ('V' + ('?' if 'no-failing-input' in v[0] else '') if r.returncode == 1 and v else f'ERR{r.returncode}')
            if k == '-' and 'undecided: ' in r.stdout: k = '~'
            res[p] = k
        ok = res[prop].startswith('V')
        missed += not ok
        print(f"{id:28} {prop} {'caught' if ok else 'MISSED'}  " + ' '.join(f'{p}:{k}' for p, k in res.items() if k != '-'), flush=True)
    finally:
        shutil.rmtree(tmp)
sys.exit(missed != 0)
