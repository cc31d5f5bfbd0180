"""Diagnostic output: verbose changes nothing else, and without it nothing is printed."""
import contextlib
import io
import os
import sys
import warnings

import numpy as np

from checks import P16
from checks.P21 import KEY
from mc import engine, mdsref, obcs, ref, sg, tiles


def listen(ch, fn, *args, **kw):
    """-> Outcome, what was printed"""
    ch.stats['transitions'] += 1
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            o = engine.Outcome(fn(*args, **kw))
        except Exception as e:
            o = engine.Outcome(exc=e)
    return o, out.getvalue() + err.getvalue()


def both(ch, fn, args, kw, first=(), files=lambda n: None, ok=True, byname=False):
    """Call without verbose, with it switched off, and on; by position and by name.
    args: positional arguments before verbose; first: what may be left out before it."""
    runs = []
    for n, (pos, name) in enumerate([((), {}), (first + (False,), {}), (first + (True,), {}),
                                     ((), {'verbose': True}), ((), {'verbose': False})]):
        if byname and pos:
            pos, name = (), {'verbose': pos[-1]}
        o, text = listen(ch, fn, *args, *pos, **kw(n), **name)
        res = ('returned', sg.snapshot(o.value)) if o.ok else ('raised', type(o.exc).__name__)
        runs.append((res, files(n)))
        ch.check(ok is None or o.ok == ok, '{} {}: {}', fn.__name__, 'verbose' if n in (2, 3) else 'quietly', o)
        ch.check(runs[n] == runs[0], '{} gives another result if {}: {} instead of {}', fn.__name__,
                 'verbose' if n in (2, 3) else 'not verbose', str(runs[n])[:200], str(runs[0])[:200])
        if n not in (2, 3) and o.ok:
            ch.check(text == '', '{} is not verbose, but prints {!r}', fn.__name__, text[:200])


def same(kw):
    return lambda n: kw


def corners(g, k=0):
    i = [(0, -1), (-1, 0), (0, 0), (-1, -1)][k]
    o = (-1 if i[0] == 0 else 0, -1 if i[1] == 0 else 0)
    return dict(lon1=g['XG'][i], lat1=g['YG'][i], lon2=g['XG'][o], lat2=g['YG'][o])


def making(ch):
    """mkgrid, the steps it takes, and grid files."""
    op = ch.choose('operation', ['mkgrid', 'fill', 'edges, areas', 'read', 'read short', 'write'])
    ni = ch.choose('ni', [1, 2, 3])
    nj = ch.choose('nj', [1, 2, 3])
    lon0 = ch.choose('longitude', [-30, 10., 0, 359.5])
    d = ch.choose('cell size', [1, 0.01, 5.5])
    k = ch.choose('corners', [0, 1, 2, 3])
    ch.commit()
    XG, YG = ref.warped(ni, nj, float(lon0), d=float(d))
    g = ref.full(XG, YG)
    ch.state(op, ni, nj, lon0, d, k)
    if op == 'mkgrid':
        lon, lat = (lon0, lon0 + d * ni), (0, d * nj)      # (also integers)
        a, b = [(0, 1), (1, 0), (0, 0), (1, 1)][k]
        both(ch, sg.mkgrid.mkgrid, (), same(dict(
            lon1=lon[a], lat1=lat[b], lon2=lon[1 - a], lat2=lat[1 - b], lon_subscale=ni, lat_subscale=nj)))
        return
    if k:
        raise engine.Skip()
    if op == 'read':
        path = ref.put(ch.tmp('g'), ref.pack(g, ni, nj))
        both(ch, sg.gridio.read_mitgridfile, (path, ni, nj), same({}), first=(True,))
    elif op == 'read short':
        path = ref.put(ch.tmp('g'), ref.pack(g, ni, nj)[:-8])
        both(ch, sg.gridio.read_mitgridfile, (path, ni, nj), same({}), first=(False,), ok=False)
    elif op == 'write':
        if d == 1:
            g['RAZ'] = None
        path = ch.tmp('g')
        both(ch, sg.gridio.write_mitgridfile, (path, g, ni, nj), same({}),
             files=lambda n: (open(path, 'rb').read(), os.remove(path)))
    else:
        cg = [np.zeros((2 * ni + 1, 2 * nj + 1)) for _ in 'xy']
        cg[0][::2, ::2], cg[1][::2, ::2] = XG, YG
        if op == 'fill':
            both(ch, sg.computegrid.fill, (cg[0], cg[1], 0, 2 * ni, 0, 2 * nj, 1, 1, sg.GEOD), same({}))
            return
        f = sg.computegrid.fill(cg[0], cg[1], 0, 2 * ni, 0, 2 * nj, 1, 1, sg.GEOD)
        both(ch, sg.computegrid.edges, (*f, 0, 2 * ni, 0, 2 * nj, sg.GEOD), same({}))
        e = sg.computegrid.edges(*f, 0, 2 * ni, 0, 2 * nj, sg.GEOD)
        both(ch, sg.computegrid.areas, (*f, *e, sg.GEOD), same({}))


def refining(ch):
    kind = ch.choose('source', ['file', 'matrices', 'bin', 'csv'])
    ni, nj = ch.choose('size', [(1, 1), (2, 1), (2, 3)])
    k = ch.choose('corners', [0, 1, 2, 3])
    turn = ch.choose('quarter turns', [0, 1, 2, 3])
    sub = ch.choose('subscales', [(1, 1), (3, 2)])
    strict = ch.flag('strict')
    fault = ch.choose('request', ['complete', 'degenerate', 'no ni', 'no source'])
    ch.commit()
    XG, YG = ref.warped(ni, nj, 20. if ni == 2 else -20.)
    g = ref.full(*ref.rotate(XG, YG, turn))
    n1, n2 = g['XC'].shape
    kw = dict(corners(ref.full(XG, YG), k), lon_subscale=sub[0], lat_subscale=sub[1])
    if kind == 'matrices':
        kw['mitgrid_matrices'] = g
    else:
        kw.update(ni=n1, nj=n2)
        if kind == 'file':
            kw['mitgridfile'] = ref.put(ch.tmp('g'), ref.pack(g, n1, n2))
        else:
            for c, v in (('xg_file', g['XG']), ('yg_file', g['YG'])):
                text = '\n'.join(','.join(repr(float(x)) for x in row) for row in v).encode()
                kw[c] = ref.put(ch.tmp(c + '.' + kind), text if kind == 'csv' else v.T.astype('>f8').tobytes())
    if fault == 'degenerate':
        kw.update(lon2=kw['lon1'], lat2=kw['lat1'])
    elif fault == 'no ni':
        if kind == 'matrices':
            raise engine.Skip()
        del kw['ni']
    elif fault == 'no source':
        for c in ('mitgrid_matrices', 'mitgridfile', 'xg_file'):
            kw.pop(c, None)
    ch.state(kind, ni, nj, k, turn, sub, strict, fault)
    both(ch, sg.regrid.regrid, (), same(kw), first=(strict,), ok=fault == 'complete')


def joining(ch):
    op = ch.choose('operation', ['matchedges', 'addfringe', 'stitch'])
    side = ch.choose('side', ['N', 'S', 'E', 'W', None])
    na, nb, along = ch.choose('sizes', [(1, 1, 1), (2, 1, 3), (1, 2, 2)])
    lon0 = ch.choose('longitude', [-40., 30.])
    strict = ch.flag('strict')
    ch.commit()
    boxa, boxb, (ni, nj) = tiles.neighbours(side or 'E', na, nb, along)
    XG, YG = ref.warped(ni, nj, lon0)
    a, b = tiles.cut(XG, YG, boxa), tiles.cut(XG, YG, boxb)
    if side is None:
        b = b[0], b[1] + 20
    ch.state(op, side, na, nb, along, lon0, strict)
    if op == 'matchedges':
        if strict:
            raise engine.Skip()
        both(ch, sg.matchedges.matchedges, (*a, *b, sg.GEOD), same({}), ok=side is not None)
        return
    kw = {}
    for t, (x, y) in (('a', a), ('b', b)):
        n1, n2 = x.shape[0] - 1, x.shape[1] - 1
        kw.update({'tile' + t: tiles.save(ch.tmp(t), ref.full(x, y), n1, n2), 'ni' + t: n1, 'nj' + t: n2})
    both(ch, getattr(getattr(sg, op), op), (), same(kw), first=(strict,), ok=side is not None)


def boundaries(ch):
    source = ch.choose('grids', ['files', 'matrices', 'parent from results'])
    off = ch.choose('sides off', ['', 'N', 'SE', 'NSEW'])
    times, depths = ch.choose('times, depths', [((0,), 1), ((0, 7), 2)])
    fault = ch.choose('request', ['complete', 'no results directory', 'index too large'])
    ch.commit()
    case = obcs.Case(2, 2, 2, 2, times=times, depths=depths)
    case.write_results(ch.tmp('run'), ('T', 'Eta', 'U', 'V'))
    kw = dict(parent_resultsdir=ch.tmp('run'), regional_mitgrid_matrices=case.region)
    if source == 'matrices':
        kw['parent_mitgrid_matrices'] = case.parent
    elif source == 'files':
        kw.update(parent_mitgridfile=tiles.save(ch.tmp('p'), case.parent, 2, 2), ni_parent=2, nj_parent=2,
                  regional_mitgridfile=tiles.save(ch.tmp('r'), case.region, 2, 2), ni_regional=2, nj_regional=2)
    else:
        pass                                    # (no corner points there: an error)
    for s in off:
        kw[KEY[s]] = [0]
    if fault == 'no results directory':
        del kw['parent_resultsdir']
    elif fault == 'index too large':
        kw['OB_Jnorth'] = [3, 1]
    ok = fault == 'complete' and source != 'parent from results'
    ch.state(source, off, times, depths, fault)

    def files(n):
        d = ch.tmp('res{}'.format(n))
        return os.path.isdir(d) and {f: open(os.path.join(d, f), 'rb').read() for f in sorted(os.listdir(d))
                                     if not f.endswith('.nc')}

    both(ch, sg.getobcs.getobcs, (), lambda n: dict(kw, resultsdir=ch.tmp('res{}'.format(n))), first=(False,),
         files=files, ok=ok)


def mds(ch):
    """mds2mitgrid's results; nothing printed by wrmds and rdmds."""
    fields = ch.choose('fields', [(), ('XG',), ('XC', 'YC', 'DXG', 'RAZ'), ref.NAMES])
    fault = ch.choose('one file cut off', [False, True])
    tiled = ch.flag('tiled')
    ch.commit()
    if fault and not fields:
        raise engine.Skip()
    d = ch.tmp('run')
    os.mkdir(d)
    for n, f in enumerate(fields):
        a = mdsref.values(1, (2, 4), n)
        if tiled:
            for t in (0, 1):
                mdsref.write(os.path.join(d, f), a[..., 2 * t:2 * t + 2], tile=[(0, 2), (2 * t, 2 * t + 2)],
                             gdims=(2, 4), suffix='.00{}.001'.format(t + 1))
        else:
            mdsref.write(os.path.join(d, f), a)
    if fault:
        f = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.data')][0]
        os.truncate(f, os.path.getsize(f) - 8)
    ch.state(fields, fault, tiled)
    both(ch, sg.mds2mitgrid.mds2mitgrid, (d,), same({}), ok=not fault)
    o, text = listen(ch, sg.mds.wrmds, ch.tmp('out'), mdsref.values(2, (2, 3)), itr=3, ndims=2, times=[1.])
    ch.check(o.ok and text == '', 'wrmds prints {!r} ({})', text[:200], o)


def reading(ch):
    """rdmds: whichever way the iterations are given; from Python and as a command."""
    have = ch.choose('iterations there', [(), (0,), (3, 10)])
    itrs = ch.choose('iterations read', [-1, 0, 3, [10, 3], [3, 4], np.nan, np.inf])
    tiled = ch.flag('tiled')
    ret = ch.flag('with metadata')
    mm = ch.flag('memory mapped')
    rec = ch.choose('record', [None, 1, 2])
    ch.commit()
    d = ch.tmp('run')
    os.mkdir(d)
    for it in have or (None,):
        f = os.path.join(d, 'T')
        a = mdsref.values(2, (2, 4), it or 0)
        kw = dict(it=it)
        for t in (0, 1) if tiled else ():
            mdsref.write(f, a[..., 2 * t:2 * t + 2], tile=[(0, 2), (2 * t, 2 * t + 2)], gdims=(2, 4),
                         suffix='.00{}.001'.format(t + 1), **kw)
        if not tiled:
            mdsref.write(f, a, **kw)
    ch.state(have, str(itrs), tiled, ret, mm, rec)
    want = list(have) if itrs is np.nan else list(have[-1:]) if itrs is np.inf else itrs if isinstance(itrs, list) else [itrs]
    ok = all(i in (have or (-1,)) for i in want) and rec != 2
    if itrs in (np.nan, np.inf) and not have:
        ok = None               # (nothing to read: neither way is specified)
    both(ch, sg.mds.rdmds, (os.path.join(d, 'T'), itrs), same(dict(returnmeta=ret, usememmap=mm, rec=rec)),
         ok=ok, byname=True)


def command(tool):
    """A command line tool without and with -v, in both of its forms."""
    def h(ch):
        build = P16.SPECS[tool](ch)
        strict = ch.flag('strict') if tool in P16.STRICT else False
        pad = ch.flag('nonzero padding') if tool in P16.STRICT else False
        ch.commit()
        case = build()
        if pad:
            f = case.opts.get('mitgridfile', case.opts.get('tilea'))
            if f is None:
                raise engine.Skip()
            P16.dirty(f, case.opts.get('ni', case.opts.get('nia')))
        argv = P16.command(case.opts, ['--strict'] if strict else [], ' ', 'as listed')
        runs = []
        for n, flags in enumerate(([], ['-v'], ['--verbose'])):
            out = ch.tmp('out{}'.format(n))
            o, text = listen(ch, main, P16.TOOLS[tool], tool, argv + ['--outfile', out] + flags)
            runs.append((P16.failed(o), open(out, 'rb').read() if os.path.exists(out) else None))
            ch.check(runs[n] == runs[0], '{} {} {}: another outcome than without it', tool, argv, flags)
            if not n and not runs[0][0]:
                ch.check(text == '', '{} is not verbose, but prints {!r}', tool, text[:200])
        ch.state(tool, argv, runs[0][0])
    return h


def main(module, tool, argv):
    old = sys.argv
    sys.argv = [tool] + [str(a) for a in argv]
    try:
        return module.main()
    finally:
        sys.argv = old


def sggetobcs(ch):
    off = ch.choose('sides off', ['', 'N', 'SEW'])
    strict = ch.flag('strict')
    bad = ch.flag('index too large')
    ch.commit()
    case = obcs.Case(2, 2, 2, 2)
    opts = {}
    for k, g in (('parent', case.parent), ('regional', case.region)):
        opts[k + '_mitgridfile'], opts['ni_' + k], opts['nj_' + k] = P16.grid_file(ch, k, g)
    case.write_results(ch.tmp('run'), ('T', 'U'))
    for s in off:
        opts[KEY[s]] = [0]
    if bad:
        opts['OB_Jnorth'] = [4, 1]
    runs = []
    for n, flags in enumerate(([], ['-v'], ['--verbose'])):
        d = ch.tmp('o{}'.format(n))
        argv = P16.command(dict(opts, parent_resultsdir=ch.tmp('run'), resultsdir=d), flags + ['-s'] * strict, ' ', 'as listed')
        o, text = listen(ch, main, sg.getobcs, 'sggetobcs', argv)
        runs.append((P16.failed(o), os.path.isdir(d) and {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)
                                                          if f.startswith('OB')}))
        ch.check(P16.failed(o) == bad, 'sggetobcs {} {}', flags, o)
        ch.check(runs[n] == runs[0], 'sggetobcs {}: another outcome than without it', flags)
        if not n and not bad:
            ch.check(text == '', 'sggetobcs is not verbose, but prints {!r}', text[:200])
    ch.state(off, strict, bad)


def scenarios(tier):
    return [('reading MDS files', reading), ('making grids', making), ('refining grids', refining), ('joining tiles', joining),
            ('boundaries', boundaries), ('mds', mds)] + \
        [(t, command(t)) for t in P16.SPECS] + [('sggetobcs', sggetobcs)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P24', 'model_checking', scenarios,
        'every operation and command line tool x sources, sides, sizes, orientations, failing requests x verbose left out, on or off, '
        'by position or name; results, errors, files and output compared',
        ['what is printed if verbose is not specified'],
        {'quick': 'grids up to 3 x 3', 'thorough': 'the same'}))
