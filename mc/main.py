import argparse
import os
import sys

from mc import core

p = argparse.ArgumentParser()
p.add_argument('check', nargs='?')
p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
p.add_argument('--replay')
p.add_argument('--setup', action='store_true')
a = p.parse_args()
if a.setup:
    import composipy
    import numpy
    import scipy
    print('composipy from', os.path.dirname(composipy.__file__), 'numpy', numpy.__version__, 'scipy', scipy.__version__)
    from mc import ref
    ref.selftest()
    print('reference models consistent')
    sys.exit(0)
if a.replay:
    sys.exit(core.replay(a.replay))
sys.exit(core.run_check(a.check.lower(), a.tier, int(os.environ.get('VERIF_SEED', '1') or 1)))
