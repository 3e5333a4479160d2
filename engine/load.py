"""load the instrumented code of /repo and the instrumented specifications"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)

import charset
import sym
import rt
import instrument


def load():
    lits = instrument.literals([os.path.join(REPO, 'src'), os.path.join(VERIF, 'vspec')])
    sym.set_charset(charset.Charset(lits))
    instrument.install({'arinc424': os.path.join(REPO, 'src'), 'vspec': VERIF})
    sym.set_ctx(sym.Ctx())
    rt.LOADING = True
    import arinc424
    import vspec.harness as harness
    rt.LOADING = False
    return arinc424, harness
