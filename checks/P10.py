"""regrid: every documented source of the parent gives the same result; invalid requests are refused."""
import os
import sys

import numpy as np

from mc import engine, ref, sg

SOURCES = ['mitgridfile', 'mitgrid_matrices', 'bin+bin', 'csv+csv', 'csv+bin', 'bin+csv', 'no extension']


def source(ch, kind, XG, YG):
    ni, nj = XG.shape[0] - 1, XG.shape[1] - 1
    if kind == 'mitgrid_matrices':
        return dict(mitgrid_matrices=ref.full(XG, YG))
    if kind == 'mitgridfile':
        return dict(mitgridfile=ref.put(ch.tmp('p.mitgrid'), ref.pack(ref.full(XG, YG), ni, nj)), ni=ni, nj=nj)
    out = dict(ni=ni, nj=nj)
    kinds = kind.split('+') if '+' in kind else ['', '']
    for name, v, ext in (('xg_file', XG, kinds[0]), ('yg_file', YG, kinds[1])):
        path = ch.tmp(name + ('.' + ext if ext else ''))
        if ext == 'csv':
            ref.put(path, '\n'.join(','.join(repr(float(x)) for x in row) for row in v).encode() + b'\n')
        else:
            ref.put(path, np.ascontiguousarray(v.T).astype('>f8').tobytes())
        out[name] = path
    return out


def equivalent(sizes, kinds):
    def run(ch):
        ni, nj = ch.choose('size', sizes)
        kind = ch.choose('source', kinds)
        strict = ch.flag('strict')
        verbose = ch.flag('verbose')
        k = ch.choose('quarter turns', [0, 1, 2, 3])
        sub = ch.choose('subscales', [(1, 1), (2, 1), (1, 3)])
        ch.commit()
        XG, YG = ref.warped(ni, nj)
        corners = dict(lon1=XG[0, -1], lat1=YG[0, -1], lon2=XG[-1, 0], lat2=YG[-1, 0],
                       lon_subscale=sub[0], lat_subscale=sub[1])
        x, y = ref.rotate(XG, YG, k)
        want = ch.must('regrid of matrices', sg.regrid.regrid, mitgrid_matrices=ref.full(x, y), **corners)
        got = ch.must('regrid', sg.regrid.regrid, strict, verbose, **source(ch, kind, x, y), **corners)
        ch.check((got[1], got[2]) == (want[1], want[2]) == (ni * sub[0], nj * sub[1]), 'counts {}', got[1:])
        bad = ref.compare(got[0], ref.fill(ref.xyz(XG, YG), *sub))
        ch.check(not bad, '{}', '; '.join(bad))
        for f in ref.NAMES:
            ch.check(ref.same(got[0][f], want[0][f]), '{} depends on where the parent comes from', f)
        ch.state(ni, nj, kind, strict, verbose, k, sub)
    return run


FILES = [('csv', n) for n in ('XG.csv', 'a.b.csv', 'x.bin/XG.csv', 'XG.bin.csv', 'csv.csv')] + \
    [('bin', n) for n in ('XG.bin', 'XG', 'XGcsv', 'XG.csv.bin', 'x.csv/XG', 'csv', 'XG.', 'XG.csv1', 'x.csv/XG.data')]
LINES = [('\n', True), ('\n', False), ('\r\n', True)]
FORMS = {'repr': lambda v: repr(float(v)), 'spaces': lambda v: '  {!r} '.format(float(v)), 'exponents': lambda v: '{:.17e}'.format(v),
         'signs': lambda v: '{:+.17g}'.format(v)}


def named(ch):
    """Coordinate files of any name and text of any form: .csv it is, or binary."""
    (kx, nx), (ky, ny) = [ch.choose(n, FILES) for n in ('xg_file', 'yg_file')]
    eol, last = ch.choose('lines end with', LINES)
    form = ch.choose('numbers', sorted(FORMS))
    if (eol, last, form) != ('\n', True, 'repr') and (kx, ky) != ('csv', 'csv'):
        raise engine.Skip()
    ch.commit()
    ni, nj = 2, 3
    XG, YG = ref.warped(ni, nj)
    kw = {}
    for arg, kind, name, v in (('xg_file', kx, nx, XG), ('yg_file', ky, ny, YG)):
        path = os.path.join(ch.tmp(arg), name)
        os.makedirs(os.path.dirname(path))
        if kind == 'csv':
            text = eol.join(','.join(FORMS[form](x) for x in row) for row in v) + eol * last
            kw[arg] = ref.put(path, text.encode())
        else:
            kw[arg] = ref.put(path, np.ascontiguousarray(v.T).astype('>f8').tobytes())
    got = ch.must('regrid of {}, {}'.format(nx, ny), sg.regrid.regrid, ni=ni, nj=nj, lon1=XG[0, -1], lat1=YG[0, -1], lon2=XG[-1, 0],
                  lat2=YG[-1, 0], lon_subscale=1, lat_subscale=2, **kw)
    ch.check((got[1], got[2]) == (ni, 2 * nj), 'counts {}', got[1:])
    bad = ref.compare(got[0], ref.fill(ref.xyz(XG, YG), 1, 2))
    ch.check(not bad, '{}', '; '.join(bad))
    ch.check(np.array_equal(got[0]['XG'][:, ::2], XG) and np.array_equal(got[0]['YG'][:, ::2], YG), 'corners of the parent moved')
    ch.state(nx, ny, eol, last, form)


def stored(ch):
    """Matrices of other types, and otherwise arranged in memory, that hold the same numbers."""
    ni, nj = ch.choose('size', [(1, 1), (2, 1), (2, 3)])
    names = ('XG', 'YG')
    kinds = [ch.choose(n + ' is', ['float64', 'float32', 'int64', 'int16', '>f8', 'fortran', 'strided', 'read-only',
                                   'longdouble']) for n in names]
    k = ch.choose('quarter turns', [0, 1, 2])
    sub = ch.choose('subscales', [(1, 1), (2, 3)])
    ch.commit()
    i, j = np.meshgrid(np.arange(ni + 1), np.arange(nj + 1), indexing='ij')
    XG, YG = 30. + 5 * i + j, 10. + 4 * j - i           # (whole numbers)
    corners = dict(lon1=XG[0, -1], lat1=YG[0, -1], lon2=XG[-1, 0], lat2=YG[-1, 0],
                   lon_subscale=sub[0], lat_subscale=sub[1])
    parent = ref.full(*ref.rotate(XG, YG, k))
    want = ch.must('regrid of matrices', sg.regrid.regrid, mitgrid_matrices=dict(parent), **corners)
    for n, kind in zip(names, kinds):
        v = parent[n]
        if kind == 'fortran':
            v = np.asfortranarray(v)
        elif kind == 'strided':
            v = np.repeat(np.repeat(v, 2, 0), 3, 1)[::2, ::3]
        elif kind == 'read-only':
            v = v.copy()
            v.flags.writeable = False
        else:
            v = v.astype(kind)
        parent[n] = v
    got = ch.must('regrid', sg.regrid.regrid, mitgrid_matrices=parent, **corners)
    ch.check((got[1], got[2]) == (want[1], want[2]) == (ni * sub[0], nj * sub[1]), 'counts {}', got[1:])
    bad = ref.compare(got[0], ref.fill(ref.xyz(XG, YG), *sub))
    ch.check(not bad, '{}', '; '.join(bad))
    for f in ref.NAMES:
        ch.check(ref.same(got[0][f], want[0][f]), '{} depends on the types of XG and YG ({})', f, kinds)
    ch.state(ni, nj, kinds, k, sub)


def invalid(ch):
    """Degenerate regions and incomplete requests."""
    ni, nj = ch.choose('size', [(2, 2), (3, 2), (1, 1)])
    kind = ch.choose('source', SOURCES)
    nodes = [(i, j) for i in range(ni + 1) for j in range(nj + 1)]
    a = ch.choose('first node', nodes)
    b = ch.choose('second node', [n for n in nodes if n[0] == a[0] or n[1] == a[1]])
    k = ch.choose('quarter turns', [0, 1])
    ch.commit()
    XG, YG = ref.warped(ni, nj)
    x, y = ref.rotate(XG, YG, k)
    ch.state(ni, nj, kind, a, b, k)
    ch.must_raise('regrid between {} and {}'.format(a, b), (ValueError,), sg.regrid.regrid,
                  **source(ch, kind, x, y), lon1=XG[a], lat1=YG[a], lon2=XG[b], lat2=YG[b],
                  lon_subscale=2, lat_subscale=1)


def incomplete(ch):
    """Requests that don't say where the parent is, or how large."""
    kind = ch.choose('source', [s for s in SOURCES if s != 'mitgrid_matrices'])
    drop = ch.choose('left out', [('ni',), ('nj',), ('ni', 'nj'), ('xg_file',), ('yg_file',),
                                  ('xg_file', 'yg_file'), ('mitgridfile',)])
    how = ch.choose('by', ['absent', 'None'])
    ch.commit()
    XG, YG = ref.warped(2, 2)
    kw = source(ch, kind, XG, YG)
    if not set(drop) <= set(kw):
        raise engine.Skip()
    for d in drop:
        if how == 'None':
            kw[d] = None
        else:
            del kw[d]
    ch.state(kind, drop, how)
    ch.must_raise('regrid without {}'.format(drop), (ValueError,), sg.regrid.regrid, **kw, lon1=XG[0, -1],
                  lat1=YG[0, -1], lon2=XG[-1, 0], lat2=YG[-1, 0], lon_subscale=1, lat_subscale=1)


def scenarios(tier):
    sizes = [(1, 1), (2, 1), (1, 3), (3, 2)] + ([(4, 4), (2, 5)] if tier == 'thorough' else [])
    return [('sources', equivalent(sizes, SOURCES)), ('files', named), ('types', stored), ('degenerate', invalid), ('incomplete', incomplete)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P10', 'model_checking', scenarios,
        'all sources x flags x orientations x subscales; names of coordinate files, forms of text; all pairs of nodes in one row or column; all '
        'subsets of required arguments left out', [],
        {'quick': 'parents up to 3 x 2', 'thorough': 'parents up to 4 x 4'}))
