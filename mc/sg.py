"""Imports the code under test, /repo/simplegrid, as it is in the working tree."""
import os
import sys

from .engine import VERIF

REPO = os.environ.get('SG_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'stubs'))    # xesmf (ESMF isn't installed)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import numpy as np                                   # noqa
import pyproj                                        # noqa
import simplegrid                                    # noqa

assert os.path.realpath(simplegrid.__file__).startswith(os.path.realpath(REPO) + os.sep), \
    simplegrid.__file__

from simplegrid import (addfringe, computegrid, config, getobcs, gridio, matchedges,   # noqa
                        mds, mds2mitgrid, mkgrid, regrid, stitch, util)

GEOD = pyproj.Geod(ellps='sphere')


def snapshot(x):
    """Deep, comparable copy of arguments and results."""
    if isinstance(x, np.ndarray):
        return ('a', x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, dict):
        return ('d', tuple((k, snapshot(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snapshot(v) for v in x))
    if isinstance(x, np.generic):
        return ('g', x.dtype.str, x.tobytes())
    return (type(x).__name__, repr(x))


def run_main(ch, module, argv):
    """Run a command line entry point, as the console script would."""
    def go():
        old = sys.argv
        sys.argv = ['sg' + module.__name__.rsplit('.', 1)[-1]] + [str(a) for a in argv]
        try:
            return module.main()
        finally:
            sys.argv = old
    return ch.call(go)
