"""Reference for open boundary extraction, and the small worlds it is checked in."""
import os

import numpy as np

from . import mdsref, ref, sg

TRACER, UVEL, VVEL = ('T', 'S', 'Eta', 'W'), ('U', 'UICE'), ('V', 'VICE')
FIELDS = TRACER + UVEL + VVEL


def kind(field):
    return 't' if field in TRACER else 'u' if field in UVEL else 'v'


def stagger(XG, YG):
    """Positions of tracer, U and V points: cell centres, middle of the western and of
    the southern cell sides.  -> {kind: unit vectors}"""
    F = ref.fill(ref.xyz(XG, YG), 1, 1)
    return {'t': F[1::2, 1::2], 'u': F[0::2, 1::2], 'v': F[1::2, 0::2]}


class Case:
    """A parent grid with results, and a regional grid inside."""

    def __init__(self, nip, njp, ni, nj, times=(0,), depths=1, seed=1, shift=0., levels=None):
        self.levels = levels or {}              # fields that have a number of levels of their own
        self.nip, self.njp, self.ni, self.nj = nip, njp, ni, nj
        self.times, self.depths = times, depths
        self.pg = ref.warped(nip, njp, lon0=-40 + shift, lat0=10, d=3., seed=seed)
        self.rg = ref.warped(ni, nj, lon0=-39 + shift, lat0=12, d=0.8, seed=seed + 3)
        self.parent = ref.full(*self.pg)
        self.region = ref.full(*self.rg)

    def data(self, field, time, expanded=False):
        """(depths, y, x) of a parent field.  Velocities may come with the extra point."""
        n = FIELDS.index(field)
        nx = self.nip + (1 if expanded and kind(field) == 'u' else 0)
        ny = self.njp + (1 if expanded and kind(field) == 'v' else 0)
        nz = 1 if field in ('Eta', 'UICE', 'VICE') else self.levels.get(field, self.depths)
        k, j, i = np.meshgrid(np.arange(nz), np.arange(ny), np.arange(nx), indexing='ij')
        return (100. * n + 7. * k + 10 * np.sin(1 + 3. * i + 5 * j + 2 * k + n)
                + 0.01 * (time % 1000) + 1e-3 * i * j)

    def write_results(self, run, fields=FIELDS, tiles=None, prec='float64', expanded=False, offset=0.):
        os.makedirs(run, exist_ok=True)
        for f in fields:
            for t in self.times:
                a = self.data(f, t, expanded) + offset
                if a.shape[0] == 1 and f in ('Eta', 'UICE', 'VICE'):
                    a = a[0]
                if not tiles:
                    mdsref.write(os.path.join(run, f), a[None], it=t, prec=prec, timestep=t)
                    continue
                ny, nx = a.shape[-2:]
                xs = np.linspace(0, nx, tiles[0] + 1).astype(int)
                ys = np.linspace(0, ny, tiles[1] + 1).astype(int)
                for ti in range(tiles[0]):
                    for tj in range(tiles[1]):
                        box = [(0, d) for d in a.shape[:-2]] + [(ys[tj], ys[tj + 1]), (xs[ti], xs[ti + 1])]
                        part = a[..., ys[tj]:ys[tj + 1], xs[ti]:xs[ti + 1]]
                        mdsref.write(os.path.join(run, f), part[None], tile=box, gdims=a.shape, it=t,
                                     prec=prec, timestep=t,
                                     suffix='.{:03d}.{:03d}'.format(ti + 1, tj + 1))

    def expected(self, field, side, index=None, expanded=False, prec='float64'):
        """(points, depths, times) of one boundary, or None if it is switched off.
        index: 1-based cell numbers along the boundary, negative from the far side."""
        import xesmf
        ni, nj = self.ni, self.nj
        npts, nacross = (ni, nj) if side in 'NS' else (nj, ni)
        if index is None:
            index = [nacross if side in 'NE' else 1] * npts
        index = np.atleast_1d(index)
        if not np.any(index):
            return None
        cell = np.array([n if n > 0 else nacross + 1 + n if n < 0 else 1 for n in index]) - 1
        k = kind(field)
        # a western boundary's normal velocity is that of the first interior face
        if (k, side) in (('u', 'W'), ('v', 'S')):
            cell = cell + 1
        P, Q = stagger(*self.pg)[k], stagger(*self.rg)[k]
        if k == 't':                    # centres as given (a refined grid's needn't be in the middle)
            P, Q = ref.xyz(self.parent['XC'], self.parent['YC']), ref.xyz(self.region['XC'], self.region['YC'])
        w = xesmf.weights(*ref.lonlat(P), *ref.lonlat(Q))
        out = None
        for n, t in enumerate(self.times):
            a = self.data(field, t, expanded)
            if prec == 'float32':
                a = a.astype('f4').astype(float)
            full = np.zeros((a.shape[0],) + P.shape[:2])
            full[:, :a.shape[2], :a.shape[1]] = a.transpose(0, 2, 1)
            r = (full.reshape(a.shape[0], -1) @ w.T).reshape((a.shape[0],) + Q.shape[:2])
            if out is None:
                out = np.zeros((npts, a.shape[0], len(self.times)))
            along = np.arange(npts)
            out[:, :, n] = (r[:, along, cell] if side in 'NS' else r[:, cell, along]).T
        return out
