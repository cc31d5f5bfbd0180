"""Independent reference for MDS (MITgcm .meta/.data) files."""
import os

import numpy as np

from . import ref


def write(base, arr, tile=None, gdims=None, prec='float64', order='>', it=None, nrec=None,
          timestep=None, interval=None, suffix='', extra='', map2glob=None):
    """Write one meta/data pair.  arr: (nrec, ..., y, x) of one tile; tile: 0-based
    (start,stop) of each dimension, slowest first."""
    dims = arr.shape[1:]
    gdims = gdims or dims
    tile = tile or [(0, d) for d in dims]
    base = base + ('.{:010d}'.format(it) if it is not None else '') + suffix
    lines = [' nDims = [ {:3d} ];'.format(len(dims)), ' dimList = [']
    rows = [' {:5d},{:5d},{:5d}'.format(g, lo + 1, hi)
            for g, (lo, hi) in zip(gdims[::-1], tile[::-1])]
    lines += [',\n'.join(rows), ' ];']
    if map2glob:
        lines.append(' map2glob = [ {},{} ];'.format(*map2glob))
    lines.append(" dataprec = [ '{}' ];".format(prec))
    lines.append(' nrecords = [ {:5d} ];'.format(arr.shape[0]))
    if timestep is not None:
        lines.append(' timeStepNumber = [ {:10d} ];'.format(timestep))
    if interval is not None:
        lines.append(' timeInterval = [' + ''.join('{:20.12E}'.format(t) for t in interval) + ' ];')
    text = '\n'.join(lines) + '\n' + extra
    ref.put(base + '.meta', text.encode())
    ref.put(base + '.data', np.ascontiguousarray(arr).astype(order + {'float32': 'f4', 'float64': 'f8'}[prec]).tobytes())
    return base


def values(nrec, dims, base=0.):
    """Distinct numbers that are exact in single precision."""
    n = nrec * int(np.prod(dims))
    return (base + 1. + np.arange(n, dtype=float)).reshape((nrec,) + tuple(dims))
