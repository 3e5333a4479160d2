"""prove.py PROPERTY SECONDS OUT.json: generate and discharge every obligation of
one property from the current source of /repo."""
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main(prop, seconds, out):
    t0 = time.time()
    res = {'property': prop}
    try:
        import load
        pkg, harness = load.load()
        res['load_s'] = round(time.time() - t0, 2)
        import explore
        import vc
        eng = explore.Engine(pkg)
        with open(os.path.join(load.VERIF, 'vspec', 'samples.txt')) as f:
            eng.samples = f.read().splitlines()
        h = getattr(harness, prop)
        if prop in ('C17', 'C18', 'C20'):
            res['invariants'] = explore.find_invariants(eng, h)
        r, vcs = explore.run(eng, h, seconds=seconds)
        res.update(paths=r.paths, subpaths=r.subpaths, contracts=r.contracts, obligations=dict(r.obls),
                   failures=r.failures[:150], nfailures=len(r.failures), unsupported=r.unsupported, approx=r.approx,
                   frames=r.frames, covered=r.covered, functions=sorted(r.funcs), explore_s=round(r.seconds, 2))
        rnd = random.Random(os.environ.get('VERIF_SEED', '1'))
        fm = r.frame_models
        res['frame_models'] = rnd.sample(fm, min(len(fm), 250))
        ms = r.models
        if len(ms) > 6000:
            ms = rnd.sample(ms, 6000)
        res['models'] = ms
        res['nmodels'] = len(r.models)
        res['z3'] = vc.discharge(vcs)
        res['cvc5'] = vc.second_opinion(vcs)
        res['terms'] = vc.terms(r.smt)
    except BaseException as e:
        import traceback
        res['error'] = '%s: %s' % (type(e).__name__, e)
        res['traceback'] = traceback.format_exc()[-3000:]
    res['seconds'] = round(time.time() - t0, 2)
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f, default=repr)
    os.replace(out + '.tmp', out)


if __name__ == '__main__':
    main(sys.argv[1], float(sys.argv[2]), sys.argv[3])
