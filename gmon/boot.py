"""Process set-up: import path, library-boundary patches, and import of the code under test.

Everything is patched at the standard-library boundary (multiprocessing, threading, time) *before* glompo is imported,
so that the simulator does not depend on how glompo is written internally.  The patches dispatch to the genuine
implementation whenever no simulation is active.
"""
import os
import sys
import warnings

REPO = os.environ.get('GMON_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

os.environ.setdefault('MPLBACKEND', 'agg')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if os.path.dirname(HERE) not in sys.path:
    sys.path.insert(0, os.path.dirname(HERE))

# PyPy has no sys.getsizeof; the file logger uses it to decide when to flush.  Environment substitute, not a repair.
try:
    sys.getsizeof(0)
except TypeError:
    sys.getsizeof = lambda o, d=0: 64

from gmon import sim as _sim  # noqa: E402

_sim.install()

warnings.simplefilter('ignore')


def load():
    import logging
    logging.getLogger('glompo').setLevel(logging.CRITICAL + 10)
    import numpy as np
    np.seterr(all='ignore')
    import glompo.core.manager  # noqa
    src = os.path.realpath(sys.modules['glompo'].__file__)
    assert src.startswith(os.path.realpath(REPO) + os.sep), src
