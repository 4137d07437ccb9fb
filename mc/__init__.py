"""Exhaustive exploration of sympl.

Byte code lying beside /repo's sources is never trusted (it is only validated
by time and size): third-party packages are imported first, then the byte code
cache is moved to the scratch directory of this run.
"""
import os
import sys

if not os.environ.get('MC_NO_SYMPL'):
    import numpy, xarray, pint, six, netCDF4, cftime, matplotlib  # noqa
    import importlib.util
    for _m in ('pandas', 'dask', 'dask.array', 'scipy', 'numba', 'unyt'):
        try:
            if importlib.util.find_spec(_m):
                __import__(_m)
        except Exception:
            pass
    sys.pycache_prefix = os.path.join(os.environ.get('MC_SCRATCH', '/nonexistent'), 'pyc')
