"""Process-wide set-up shared by every check.

* the code under test is imported from the working tree named by VERIF_REPO
  (default /repo), nothing is cached between runs;
* HOME is a scratch directory (nephosem empties ~/tmp);
* multiprocessing's entry points are replaced *before* nephosem is imported,
  so that whichever way the code refers to them it gets the controlled ones.
"""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
SCRATCH = os.environ['VERIF_SCRATCH']
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = 8  # what the code under test is told about the machine

_loaded = None


def load():
    """Import nephosem with the controlled multiprocessing layer installed."""
    global _loaded
    if _loaded is None:
        from mc import sched
        sched.install(cpus=NCPU)
        import logging
        import nephosem
        here = os.path.realpath(os.path.dirname(nephosem.__file__))
        want = os.path.realpath(os.path.join(REPO, 'nephosem'))
        if here != want:
            raise RuntimeError('nephosem imported from %s, not %s' % (here, want))
        logging.disable(logging.CRITICAL)
        import warnings
        warnings.filterwarnings('ignore')
        import numpy as np
        np.seterr(all='ignore')
        _loaded = nephosem
    return _loaded
