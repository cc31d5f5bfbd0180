"""Stand-in for xESMF (0.2 API), for checking getobcs where ESMF can't be installed.

Interpolation weights are dense and depend on the position of every source and
target point, so that a wrong grid, staggering, transposition or stale weight
file shows in the numbers.  As in xESMF, an existing weight file is reused if
reuse_weights is set, whatever grids it was made for.
"""
import os

import numpy as np

CALLS = []


def weights(lon_in, lat_in, lon_out, lat_out):
    def xyz(lon, lat):
        lon, lat = np.radians(np.asarray(lon, float)), np.radians(np.asarray(lat, float))
        return np.stack([np.cos(lon) * np.cos(lat), np.sin(lon) * np.cos(lat), np.sin(lat)], -1)
    a = xyz(lon_in, lat_in).reshape(-1, 3)
    b = xyz(lon_out, lat_out).reshape(-1, 3)
    d = np.sqrt(((b[:, None, :] - a[None, :, :]) ** 2).sum(-1))
    w = 1. / (d + 0.01)
    return w / w.sum(1, keepdims=True)


class Regridder:

    def __init__(self, ds_in, ds_out, method, periodic=False, filename=None,
                 reuse_weights=False, **kw):
        self.shape_in = np.shape(ds_in['lon'])
        self.shape_out = np.shape(ds_out['lon'])
        self.method, self.filename = method, filename
        if filename is None:
            raise ValueError('no filename')
        if reuse_weights and os.path.exists(filename):
            with open(filename, 'rb') as f:
                self.w = np.load(f)
        else:
            self.w = weights(ds_in['lon'], ds_in['lat'], ds_out['lon'], ds_out['lat'])
            with open(filename, 'wb') as f:
                np.save(f, self.w)
        CALLS.append((method, filename, self.shape_in, self.shape_out))

    def __call__(self, data):
        data = np.asarray(data, dtype=float)
        assert data.shape[-2:] == self.shape_in, (data.shape, self.shape_in)
        lead = data.shape[:-2]
        out = data.reshape(lead + (-1,)) @ self.w.T
        return out.reshape(lead + self.shape_out)

    def clean_weight_file(self):
        if os.path.exists(self.filename):
            os.remove(self.filename)
