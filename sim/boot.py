"""Import the code under test from /repo's working tree (never from stale bytecode)."""
import os
import sys
import tempfile
import warnings

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import numpy as np  # noqa: E402
from astropy import units as u  # noqa: E402
from astropy import constants as const  # noqa: E402,F401
import jax  # noqa: E402,F401
import jax.numpy  # noqa: E402,F401
import tinygp  # noqa: E402,F401

_old = sys.pycache_prefix
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-no-such-pycache-%d' % os.getpid())
import vspec_vsm  # noqa: E402
from vspec_vsm import star as _star, spots as _spots, faculae as _fac  # noqa: E402,F401
from vspec_vsm import flares as _flares, granules as _gran, helpers as _helpers  # noqa: E402,F401
from vspec_vsm import coordinate_grid as _grid, config as _config, xoflares as _xo  # noqa: E402,F401
sys.pycache_prefix = _old

PKG = os.path.dirname(os.path.abspath(vspec_vsm.__file__))
if not PKG.startswith(os.path.abspath(REPO) + os.sep):
    raise SystemExit('vspec_vsm comes from %s, not %s' % (PKG, REPO))

MSH = _config.MSH
Star = vspec_vsm.Star
StarSpot = vspec_vsm.StarSpot
SpotCollection = vspec_vsm.SpotCollection
SpotGenerator = vspec_vsm.SpotGenerator
Facula = vspec_vsm.Facula
FaculaCollection = vspec_vsm.FaculaCollection
FaculaGenerator = vspec_vsm.FaculaGenerator
StellarFlare = vspec_vsm.StellarFlare
FlareCollection = vspec_vsm.FlareCollection
FlareGenerator = vspec_vsm.FlareGenerator
Granulation = vspec_vsm.Granulation
CoordinateGrid = vspec_vsm.CoordinateGrid
