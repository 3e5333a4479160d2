"""Write /verif/seeded/<id>/ from the specifications in tools/seeds.py and confirm each one:
applies to /repo's HEAD, builds, stable tests pass, demo passes without and fails with the change.
   python3 tools/mkseed.py [id ...]
"""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds
ROOT = os.path.dirname(HERE)
REPO = '/repo'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def tests():
    out = '/tmp/mkseed.json'
    sh(f'bash /opt/vp/test.sh {out}')
    r = json.load(open(out))
    return r


def passed(r):
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('stable') or base.get('passed') or base.get('tests')
    ok = set(r.get('passed', []))
    return all(n in ok for n in names)


def main():
    want = sys.argv[1:]
    bad = 0
    assert sh(f'git -C {REPO} status --porcelain').stdout == '', 'repo not clean'
    for s in seeds.SEEDS:
        if want and s['id'] not in want:
            continue
        d = os.path.join(ROOT, 'seeded', s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            for f, old, new in s['edits']:
                p = os.path.join(REPO, 'src/arinc424', f)
                t = open(p, newline='').read()
                if '\r\n' in t:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                assert t.count(old) == 1, (s['id'], f, t.count(old))
                open(p, 'w', newline='').write(t.replace(old, new))
            open(d + '/patch.diff', 'w', newline='').write(sh(f'git -C {REPO} diff').stdout)
            open(d + '/demo.py', 'w').write(seeds.PRELUDE + s['demo'])
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            b = sh('bash /opt/vp/build.sh')
            t = passed(tests())
            w = sh(f'bash {d}/demo.sh', cwd=REPO)
        finally:
            sh(f'git -C {REPO} checkout -- .')
        c = sh(f'bash {d}/demo.sh', cwd=REPO)
        a = sh(f'git -C {REPO} apply --check {d}/patch.diff')
        ok = b.returncode == 0 and t and w.returncode != 0 and c.returncode == 0 and a.returncode == 0
        print(s['id'], s['property'], 'ok' if ok else 'BAD', dict(build=b.returncode, tests=t, demo_with=w.returncode, demo_without=c.returncode, apply=a.returncode), flush=True)
        if not ok:
            bad += 1
            print(b.stderr[-300:], w.stdout[-300:], w.stderr[-500:], c.stdout[-300:], c.stderr[-600:], a.stderr)
        else:
            print('     ', (w.stderr or w.stdout).strip().splitlines()[-1][:150])
    sys.exit(bad != 0)


main()
