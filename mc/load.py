"""Imports the code under test from the working tree of /repo, always compiled from source.

VERIF_REPO overrides the location (used for scratch copies while developing).  Third-party packages are
imported first, so that only cbx itself is affected by the redirected byte-code cache.
"""
import importlib
import os
import sys
import tempfile
import types
import warnings

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))


class _NoTorch:
    def find_spec(self, name, path=None, target=None):
        if name == 'torch' or name.startswith('torch.'):
            raise ImportError('torch is not needed by this check')
        return None


def load(torch=False, matplotlib=False):
    import numpy
    import scipy.special, scipy.linalg, scipy.stats  # noqa
    from numpy.lib import stride_tricks  # noqa
    warnings.simplefilter('ignore')
    if torch:
        import torch as t
        import torch.func  # noqa
        t.set_num_threads(1)
    else:
        sys.meta_path.insert(0, _NoTorch())  # cbx then takes its documented no-torch path
    if matplotlib:
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot  # noqa
    else:
        # cbx/__init__ imports cbx.plotting only when asked for
        pass
    sys.path.insert(0, REPO)
    old = sys.dont_write_bytecode, sys.pycache_prefix
    sys.dont_write_bytecode = True
    # a cache location that does not exist: stale byte code of /repo can never be used
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-no-pycache-%d' % os.getpid())
    names = ['cbx', 'cbx.dynamics', 'cbx.dynamics.pdyn', 'cbx.objectives', 'cbx.scheduler', 'cbx.noise',
             'cbx.correction', 'cbx.constraints', 'cbx.regularizers', 'cbx.utils.termination',
             'cbx.utils.resampling', 'cbx.utils.success', 'cbx.utils.history', 'cbx.utils.particle_init',
             'cbx.utils.objective_handling', 'cbx.utils.torch_utils', 'cbx.dynamics.mirrorcbo',
             'cbx.dynamics.polarcbo', 'cbx.dynamics.hypersurfacecbo', 'cbx.dynamics.driftconstrainedcbo',
             'cbx.dynamics.regcombinationcbo', 'cbx.dynamics.adamcbo', 'cbx.dynamics.pso',
             'cbx.dynamics.cbo_memory', 'cbx.dynamics.cbs']
    if matplotlib:
        names.append('cbx.plotting')
    try:
        for n in names:
            importlib.import_module(n)
    finally:
        sys.dont_write_bytecode, sys.pycache_prefix = old
    cbx = sys.modules['cbx']
    if not os.path.realpath(cbx.__file__).startswith(REPO + os.sep):
        raise SystemExit('cbx was imported from %s, not from %s' % (cbx.__file__, REPO))
    numpy.seterr(all='ignore')
    return cbx
