"""rdmds: whatever the files and the selection, the result is that part of the whole field."""
import os
import sys

import numpy as np

from mc import engine, mdsref, ref, sg

NAN, INF = np.nan, np.inf


def ravel(o):
    return [o] if np.isscalar(o) else list(o)


def select(fields, rec, lev, region, squeeze, itrs_scalar, astype):
    """fields: (iterations, records, ..., y, x), fill values in place."""
    nit, nrec = fields.shape[:2]
    a = fields
    r = list(range(nrec)) if rec is None else [k % nrec for k in ravel(rec)]
    a = a[:, r]
    if not isinstance(lev, tuple):
        lev = (lev,)
    for n, l in enumerate(lev):
        a = a[(slice(None),) * (2 + n) + (ravel(l),)]
    ny, nx = a.shape[-2:]
    x0, x1, y0, y1 = region or (0, nx, 0, ny)
    x0, x1 = [x + nx if x < 0 else x for x in (x0, x1)]
    y0, y1 = [y + ny if y < 0 else y for y in (y0, y1)]
    a = a[..., y0:y1, x0:x1]
    dims = a.shape[:2 + len(lev)]
    if squeeze:
        keep = [d > 1 for d in dims]
    else:
        keep = [not itrs_scalar, rec is None and nrec > 1 or np.iterable(rec)] + [np.iterable(l) for l in lev]
    shape = tuple(d for d, k in zip(dims, keep) if k) + a.shape[len(dims):]
    return a.reshape(shape).astype(astype or a.dtype)


def compare(ch, got, want, what):
    ch.check(isinstance(got, np.ndarray) and got.shape == want.shape, '{}: shape {}, is {} of the field',
             what, getattr(got, 'shape', type(got)), want.shape)
    ch.check(np.array_equal(np.nan_to_num(got, nan=-7e7), np.nan_to_num(want, nan=-7e7)),
             '{}: {} is not {}', what, got.tolist(), want.tolist())


def tiling(n, size):
    return [(k, k + size) for k in range(0, n, size)]


def put_tiles(base, a, size, missing=(), first=1, **kw):
    """Write records a (nrec, ..., y, x) in tiles of size (x, y), numbered as MITgcm does."""
    ny, nx = a.shape[-2:]
    n = 0
    for tj, (y0, y1) in enumerate(tiling(ny, size[1])):
        for ti, (x0, x1) in enumerate(tiling(nx, size[0])):
            if n not in missing:
                mdsref.write(base, a[..., y0:y1, x0:x1], tile=[(0, d) for d in a.shape[1:-2]] + [(y0, y1), (x0, x1)],
                             gdims=a.shape[1:], suffix='.{:03d}.{:03d}'.format(ti + first, tj + 1), **kw)
            n += 1


def holes(a, size, missing, fill):
    ny, nx = a.shape[-2:]
    a = a.copy()
    boxes = [(y, x) for y in tiling(ny, size[1]) for x in tiling(nx, size[0])]
    for n in missing:
        (y0, y1), (x0, x1) = boxes[n]
        a[..., y0:y1, x0:x1] = fill
    return a


def tiles(grids, regions):
    """Fields in tiles, any of which may be missing; regions of every kind."""
    def h(ch):
        (nx, ny), size = ch.choose('grid', grids)
        levels = ch.choose('levels', [None, 2])
        region = ch.choose('region', regions(nx, ny))
        mm = ch.flag('usememmap')
        rec = ch.choose('rec', [None, 1, [1, 0]])
        prec, order = ch.choose('type', [('float64', 'b'), ('float32', 'ieee-le')])
        ch.commit()
        a = mdsref.values(2, ((levels,) if levels else ()) + (ny, nx))
        ntiles = (nx // size[0]) * (ny // size[1])
        for code in range(2 ** ntiles - 1):
            missing = [n for n in range(ntiles) if code >> n & 1]
            fill = (0, -1.5, NAN)[code % 3]
            base = ch.tmp('F{}'.format(code))
            put_tiles(base, a, size, missing, prec=prec, order='>' if order == 'b' else '<')
            got = ch.must('rdmds', sg.mds.rdmds, base, machineformat=order, region=region, usememmap=mm, rec=rec,
                          fill_value=fill)
            want = select(holes(a, size, missing, fill)[None], rec, (), region, True, True, float)
            compare(ch, got, want, 'tiles {} missing, region {}'.format(missing, region))
            ch.state(nx, ny, size, levels, region, mm, rec, prec, missing)
    return h


def all_regions(nx, ny):
    return [None] + [(x0, x1, y0, y1) for x0 in range(nx) for x1 in range(x0 + 1, nx + 1)
                     for y0 in range(ny) for y1 in range(y0 + 1, ny + 1)] + [(-1, nx, 0, ny), (0, -1, 0, -1)]


def few_regions(nx, ny):
    return [None, (0, nx, 0, ny), (nx - 1, nx, 0, 1), (nx // 2, nx, ny // 2, ny), (0, 1, ny - 1, ny),
            (nx // 2, nx // 2 + 1, 0, ny), (0, nx, ny // 2, ny // 2 + 1), (-1, nx, 0, ny), (0, -1, 0, -1) if min(nx, ny) > 1 else None,
            (0, 0, 0, ny), (nx, nx, 0, ny), (0, nx, 0, 0)]


def many(grids):
    """Many tiles: none or any one of them missing."""
    def h(ch):
        (nx, ny), size = ch.choose('grid', grids)
        missing = ch.choose('missing', [None] + list(range((nx // size[0]) * (ny // size[1]))))
        mm = ch.flag('usememmap')
        ch.commit()
        a = mdsref.values(1, (ny, nx))
        missing = [missing] if missing is not None else []
        put_tiles(ch.tmp('F'), a, size, missing, it=4)
        for region in (None, (nx - 1, nx, 0, ny), (0, nx, ny // 2, ny), (nx // 3, nx // 2 + 1, ny // 3, ny // 2 + 1)):
            got = ch.must('rdmds', sg.mds.rdmds, ch.tmp('F'), 4, region=region, usememmap=mm, fill_value=-2)
            compare(ch, got, select(holes(a, size, missing, -2)[None], None, (), region, True, True, float),
                    'tile {} missing, region {}'.format(missing, region))
        ch.state(nx, ny, size, missing, mm)
    return h


def deep(shapes):
    """Many records, levels or iterations: any one, or everything from there on."""
    def h(ch):
        nit, nrec, nz = ch.choose('iterations, records, levels', shapes)
        which = ch.choose('which', ['itr', 'rec', 'lev'])
        at = ch.choose('from', {'itr': nit, 'rec': nrec, 'lev': nz}[which])
        n = ch.choose('how many', [1, 2, 'all', 'all, any order'])
        mm = ch.flag('usememmap')
        ch.commit()
        fields = np.stack([mdsref.values(nrec, (nz, 2, 3), 7000. * t) for t in range(nit)])
        for t in range(nit):
            mdsref.write(ch.tmp('F'), fields[t], it=3 * t)
        part = list(range(at, {'itr': nit, 'rec': nrec, 'lev': nz}[which]))[:n if isinstance(n, int) else None]
        if n == 2:
            part = part[::-1]
        if n == 'all, any order':
            part = sorted(part, key=lambda k: 7 * k % 11) + part[-1:]
        its = part if which == 'itr' else range(nit)
        kw = {which: part} if which != 'itr' else {}
        got = ch.must('rdmds', sg.mds.rdmds, ch.tmp('F'), [3 * t for t in its], usememmap=mm, **kw)
        compare(ch, got, select(fields[list(its)], kw.get('rec'), kw.get('lev', ()), None, True, False, float),
                '{} {}'.format(which, part))
        ch.state(nit, nrec, nz, which, at, n, mm)
    return h


def selections(shapes):
    """Records, levels, regions, data type and shape of the result, iterations."""
    def h(ch):
        nrec, dims = ch.choose('field', shapes)
        rec = ch.choose('rec', [None, 0, nrec - 1, -1, [0], list(range(nrec))[::-1], range(nrec), [-1, 0, -1]])
        nz = dims[:-2]
        lev = ch.choose('lev', [()] + ([0, -1, [0], list(range(nz[0]))[::-1], np.array([nz[0] - 1]), (0,), ([0],)] if nz else [])
                        + ([(0, 1), ([0], 1), (0, [1, 0]), (list(range(nz[0]))[::-1], [1, 0]), ([0], range(nz[1]))] if len(nz) > 1 else []))
        nx, ny = dims[-1], dims[-2]
        region = ch.choose('region', [None, (1, nx, 0, ny - 1), (0, 1, -1, ny)])
        mm = ch.choose('memory map', [{}, {'usememmap': True}, {'mm': True}])
        squeeze = ch.choose('squeeze', [True, False])
        itrs = ch.choose('itrs', [-1, 0, [0], [20, 0], (0, 10, 20), [10, 10, 0, 10]])
        ch.commit()
        its = [0] if itrs == -1 else ravel(itrs)
        fields = np.stack([mdsref.values(nrec, dims, 1000. * t) for t in (0, 10, 20)])
        for t in ([None] if itrs == -1 else range(3)):
            mdsref.write(ch.tmp('F'), fields[t or 0], it=None if t is None else 10 * t)
        before = ref.listing(ch.scratch)
        for astype in (float, None, 'f4', int):
            got = ch.must('rdmds', sg.mds.rdmds, ch.tmp('F'), *([] if itrs == -1 else [itrs]), rec=rec, lev=lev,
                          region=region, squeeze=squeeze, astype=astype, **mm)
            want = select(fields[[t // 10 for t in its]], rec, lev, region, squeeze, np.isscalar(itrs),
                          astype if astype is not None else '>f8')
            if not squeeze and rec is None and nrec == 1:
                got = got.reshape(want.shape)       # whether this dimension stays isn't documented
            compare(ch, got, want, 'rec {} lev {} region {}'.format(rec, lev, region))
            ch.check(got.dtype == np.dtype(astype if astype is not None else '>f8'), 'type {}', got.dtype)
        ch.check(ref.listing(ch.scratch) == before, 'reading changed the files')
        ch.state(nrec, dims, rec, lev, region, mm, squeeze, itrs)
    return h


def kinds(ch):
    """Iterations, records and levels as numbers and sequences of any type."""
    SEQ = {'list': list, 'tuple': tuple, 'array': np.array, 'int32 array': lambda v: np.array(v, 'i4'),
           'uint8 array': lambda v: np.array(v, 'u1'), 'read-only array': lambda v: np.frombuffer(np.array(v, 'i8').tobytes(), 'i8'),
           'array, strided': lambda v: np.repeat(np.array(v), 2)[::2], 'list of int64': lambda v: list(np.array(v)),
           'keys': lambda v: dict.fromkeys(v).keys()}
    ONE = {'int': int, 'int64': np.int64, 'int32': np.int32, 'uint8': np.uint8, 'array of no dimension': np.array}
    which = ch.choose('given', ['itrs', 'rec', 'lev'])
    kind = ch.choose('as', sorted(SEQ) + sorted(ONE))
    values = ch.choose('values', [[0], [1], [2, 0], [0, 1, 2], [2, 1, 0]] if kind in SEQ else [0, 1, 2])
    mm = ch.choose('memory map', [False, True])
    squeeze = ch.choose('squeeze', [True, False])
    ch.commit()
    if which == 'lev' and kind == 'tuple':      # (means something else)
        raise engine.Skip()
    arg = (SEQ.get(kind) or ONE[kind])(values)
    fields = np.stack([mdsref.values(3, (3, 4, 5), 1000. * t) for t in range(3)])
    for t in range(3):
        mdsref.write(ch.tmp('F'), fields[t], it=t)
    kw = {'itrs': [0, 2], 'rec': None, 'lev': (), which: arg}
    got = ch.must('rdmds', sg.mds.rdmds, ch.tmp('F'), kw['itrs'], usememmap=mm, squeeze=squeeze, rec=kw['rec'], lev=kw['lev'])
    v = {'itrs': [0, 2], 'rec': None, 'lev': (), which: values}
    want = select(fields[ravel(v['itrs'])], v['rec'], v['lev'], None, squeeze, np.isscalar(v['itrs']), float)
    compare(ch, got, want, '{}={!r}'.format(which, arg))
    ch.state(which, kind, values, mm, squeeze)


def iterations(ch):
    """Which iterations are there, and all or the last of them; files in several directories."""
    have = ch.choose('iterations', [(), (0,), (5,), (0, 72), (9, 10, 100), (1234567890, 3), (2000000001, 1000000500, 3, 999999999)])
    split = ch.choose('files', ['global', 'tiles', 'tiles in directories', 'without first tile', 'tiles from 12', 'tiles from 100'])
    others = ch.flag('other fields')
    ask = ch.choose('ask', ['all', 'last', 'each', 'list', 'absent'])
    nan, inf = ch.choose('written as', [(np.nan, np.inf), (float('nan'), float('inf')),
                                        (np.float64('nan'), np.float64('inf'))]) if ask in ('all', 'last') else (0, 0)
    ch.commit()
    run = ch.tmp('run')
    os.makedirs(run)
    name = os.path.join(run, 'F')
    data = {}
    missing = [0] if split == 'without first tile' else []
    for t in have:
        a = mdsref.values(1, (2, 4), t % 1000 * 10.)
        iv = (t * 10., t * 10. + 5)
        data[t] = holes(a, (2, 2), missing, 0)
        kw = dict(it=t, timestep=t, interval=iv)
        if split == 'global':
            mdsref.write(name, a, **kw)
        elif split == 'tiles in directories':
            for n in range(2):
                d = os.path.join(run, 'res_{:04d}'.format(n))
                os.makedirs(d, exist_ok=True)
                put_tiles(os.path.join(d, 'F'), a, (2, 2), [1 - n], **kw)
        else:
            put_tiles(name, a, (2, 2), missing, first=int(split.split()[2]) if 'from' in split else 1, **kw)
    if others:
        for f, t in (('FF', 33), ('F2', 33), ('G', 33), ('aF', 33)):
            mdsref.write(os.path.join(run, f), mdsref.values(1, (3, 3)), it=t)
        ref.put(name + '.meta.bak', b'x')
        ref.put(name + '.00000000xx.meta', b'x')
    if split == 'tiles in directories':
        name = os.path.join(run, 'res_*', 'F')
    its = sorted(have)
    if ask == 'absent':
        o = ch.call(sg.mds.rdmds, name, 44)
        ch.check(o.raised(IOError), 'reading an iteration that is not there {}', o)
        o = ch.call(sg.mds.rdmds, name)
        ch.check(o.raised(IOError), 'reading a file that is not there {}', o)
        return
    asked = {'all': [(nan, its)], 'last': [(inf, its[-1:])], 'list': [(its[::-1], its[::-1]), (tuple(its), its), (its + its[:1], its + its[:1])],
             'each': [(t, [t]) for t in its]}[ask]
    for arg, want in asked:
        if not want and ask == 'list':
            continue
        got = ch.must('rdmds', sg.mds.rdmds, name, arg, returnmeta=True)
        ch.check(len(got) == 3, 'three results expected')
        a, gits, meta = got
        ch.check([int(t) for t in gits] == want, 'iterations {} were read, {} asked for', gits, want)
        plain = ch.must('rdmds', sg.mds.rdmds, name, arg)
        if not want:
            ch.check(a.size == 0 and plain.size == 0, 'data without files')
            continue
        whole = select(np.stack([data[t] for t in want]), None, (), None, True, True, float)
        compare(ch, a, whole, 'iterations {}'.format(want))
        compare(ch, plain, whole, 'iterations {}'.format(want))
        ch.check(meta.get('timestepnumber') == want, 'timeStepNumber {} for iterations {}',
                 meta.get('timestepnumber'), want)
        ch.check(meta.get('timeinterval') == [[t * 10., t * 10. + 5] for t in want], 'timeInterval {} for {}',
                 meta.get('timeinterval'), want)
    ch.state(have, split, others, ask)


def blank(sizes):
    """Several iterations, each with blank tiles: all of them show the fill value."""
    def h(ch):
        nx, ny, size = ch.choose('grid', sizes)
        nit = ch.choose('iterations', [1, 2, 3])
        fill = ch.choose('fill_value', [0, -1.5, NAN, 1e30])
        astype = ch.choose('astype', [float, None, 'f4'])
        mm = ch.flag('usememmap')
        rec = ch.choose('rec', [None, 0, [1, 0]])
        region = ch.choose('region', [None, (1, nx, 0, ny)])
        n = (nx // size[0]) * (ny // size[1])
        missing = [ch.choose('blank at {}'.format(t), [[k for k in range(n) if code >> k & 1] for code in (0, 1, 2 ** n - 2)])
                   for t in range(nit)]
        ch.commit()
        want = []
        for t in range(nit):
            a = mdsref.values(2, (ny, nx), 500. * t)
            put_tiles(ch.tmp('F'), a, size, missing[t], it=7 * t, prec='float64')
            want.append(holes(a, size, missing[t], fill))
        got = ch.must('rdmds', sg.mds.rdmds, ch.tmp('F'), [7 * t for t in range(nit)], fill_value=fill, astype=astype,
                      usememmap=mm, rec=rec, region=region)
        compare(ch, got, select(np.stack(want), rec, (), region, True, False, astype if astype is not None else '>f8'),
                'tiles {} missing'.format(missing))
        ch.state(nx, ny, size, nit, fill, astype, mm, rec, region, missing)
    return h


def facets(layouts):
    """Facets of several widths folded into one field (map2glob), in tiles."""
    def h(ch):
        nx, boxes, size = ch.choose('layout', layouts)
        levels = ch.choose('levels', [None, 2])
        missing = ch.choose('missing', [(), (0,), (1,)])
        mm = ch.flag('usememmap')
        rec = ch.choose('rec', [None, 0, [1, 0]])
        lev = ch.choose('lev', [()] + ([1, [1, 0]] if levels else []))
        ch.commit()
        n = sum(w * h for w, h in boxes)
        dims = ((levels,) if levels else ()) + (n // nx, nx)
        a = mdsref.values(2, dims)
        want = a.copy().reshape(a.shape[:-2] + (n,))
        start, k = 0, 0
        for w, h in boxes:
            for y0, y1 in tiling(h, size[1]):
                for x0, x1 in tiling(w, size[0]):
                    at = start + y0 * w + x0
                    idx = at + np.arange(y1 - y0)[:, None] * w + np.arange(x1 - x0)[None]
                    if k in missing:
                        want[..., idx] = -3
                    else:
                        i0, j0 = at % nx, at // nx
                        mdsref.write(ch.tmp('F'), a.reshape(want.shape)[..., idx], gdims=dims, map2glob=(w, 0),
                                     tile=[(0, d) for d in dims[:-2]] + [(j0, j0 + y1 - y0), (i0, i0 + x1 - x0)],
                                     suffix='.{:03d}.001'.format(k + 1))
                    k += 1
            start += w * h
        if k <= max(missing, default=0):
            raise engine.Skip()
        if k == len(missing):
            raise engine.Skip()
        got = ch.must('rdmds', sg.mds.rdmds, ch.tmp('F'), rec=rec, lev=lev, usememmap=mm, fill_value=-3)
        compare(ch, got, select(want.reshape(a.shape)[None], rec, lev, None, True, True, float),
                'facets {} in rows of {}, tiles {}'.format(boxes, nx, size))
        o = ch.call(sg.mds.rdmds, ch.tmp('F'), region=(0, 1, 0, 1))
        ch.check(o.raised(NotImplementedError), 'a region of a folded field {}', o)
        ch.state(nx, boxes, size, levels, missing, mm, rec, lev)
    return h


def truncated(ch):
    """A data file that is too short: never other data, and never changed."""
    tiled = ch.flag('tiles')
    mm = ch.flag('usememmap')
    rec = ch.choose('rec', [None, 0, 1, [1, 0], -1])
    region = ch.choose('region', [None, (0, 2, 0, 1), (1, 3, 1, 2)]) if not tiled else None
    prec = ch.choose('dataprec', ['float64', 'float32'])
    size = {'float64': 8, 'float32': 4}[prec]
    full = 2 * 6 * size
    cut = ch.choose('length', full)
    ch.commit()
    a = mdsref.values(2, (2, 6 if tiled else 3))
    if tiled:
        put_tiles(ch.tmp('F'), a, (3, 2), prec=prec)
        f = ch.tmp('F.002.001.data')
    else:
        mdsref.write(ch.tmp('F'), a, prec=prec)
        f = ch.tmp('F.data')
    ref.put(f, open(f, 'rb').read()[:cut])
    before = ref.listing(ch.scratch)
    o = ch.call(sg.mds.rdmds, ch.tmp('F'), rec=rec, region=region, usememmap=mm)
    ch.check(ref.listing(ch.scratch) == before, 'reading a short file changed it')
    if o.ok:
        ch.check(rec is not None and max(k % 2 for k in ravel(rec)) * 6 * size + 6 * size <= cut,
                 'a file cut to {} of {} bytes reads as {}', cut, full, o.value.tolist())
        compare(ch, o.value, select(a[None], rec, (), region, True, True, float), 'cut file')
    ch.state(tiled, mm, rec, region, prec, cut)


def readonly(ch):
    """Files the user may only read can be read, every way."""
    mm = ch.flag('usememmap')
    rec = ch.choose('rec', [None, 0])
    region = ch.choose('region', [None, (0, 1, 0, 2)])
    ch.commit()
    a = mdsref.values(2, (2, 3))
    mdsref.write(ch.tmp('F'), a)
    for e in ('.meta', '.data'):
        os.chmod(ch.tmp('F' + e), 0o444)
    d = ch.scratch
    os.chmod(d, 0o755)

    def run():
        # nobody; the directories above may be closed to it, so go there first
        os.chdir(d)
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
        return sg.mds.rdmds('F', rec=rec, region=region, usememmap=mm)
    res = ch.in_child(run)
    ch.check(res[0] == 'ok', 'reading files without permission to write: {}', res)
    compare(ch, np.asarray(res[1]), select(a[None], rec, (), region, True, True, float), 'read-only files')
    ch.state(mm, rec, region)


META = {
    'one line': ' dimList = [ 3, 1, 3, 2, 1, 2 ];',
    'rows': ' dimList = [\n     3,    1,    3,\n     2,    1,    2\n ];',
    'tight': ' dimList = [3,1,3,2,1,2];',
    'trailing comma': ' dimList = [\n   3,  1,  3,\n   2,  1,  2,\n ];',
    'comments': '// sizes\n dimList = [ /* x */ 3, 1, 3, // of x\n /* y */ 2, 1, 2 ];',
}


def metafiles(ch):
    """Meta files in all the formats MITgcm versions and users write them."""
    dimlist = ch.choose('dimList', sorted(META))
    key, space = ch.choose('type', [('dataprec', ' '), ('format', ' '), ('dataprec', '')])
    prec = ch.choose('precision', ['float32', 'float64'])
    nrec = ch.choose('nrecords', [1, 2])
    extra = ch.choose('extra', ['', ' missingValue = [ -9.99000000000000E+02 ];',
                                " nFlds = [    2 ];\n fldList = {\n 'ETAN    ' 'THETA   '\n };",
                                " simulation = { 'a // b /* c */ = d' };", "\n   \n// end\n",
                                ' missingValue = [ 1e20 ];', " title = [ 'it''s' ];"])
    step = ch.choose('time', ['', ' timeStepNumber = [        10 ];', ' timeStepNumber = [10];\n timeInterval = [ 0.0000E+00 3.600000E+03 ];'])
    ch.commit()
    a = mdsref.values(nrec, (2, 3))
    mdsref.write(ch.tmp('F'), a, prec=prec)
    text = '\n'.join([' nDims = [{0}2{0}];'.format(space), META[dimlist],
                      " {1} = [{0}'{2}'{0}];".format(space, key, prec),
                      ' nrecords = [{0}{1}{0}];'.format(space, nrec)] + [s for s in (step, extra) if s]) + '\n'
    ref.put(ch.tmp('F.meta'), text.encode())
    got, its, meta = ch.must('rdmds', sg.mds.rdmds, ch.tmp('F'), returnmeta=True)
    compare(ch, got, select(a[None], None, (), None, True, True, float), 'meta file')
    want = {'ndims': [2], 'dimlist': [3, 2], key: [prec], 'nrecords': [nrec]}
    if 'missing' in extra:
        want['missingvalue'] = [float(extra.split()[3])]
    if 'nFlds' in extra:
        want.update(nflds=[2], fldlist=['ETAN', 'THETA'])
    if 'simulation' in extra:
        want['simulation'] = ['a // b /* c */ = d']
    if 'title' in extra:
        want['title'] = ["it's"]
    if step:
        want['timestepnumber'] = [10]
    if 'Interval' in step:
        want['timeinterval'] = [[0., 3600.]]
    ch.check(meta == want, 'metadata {} read, {} written', meta, want)
    ch.state(dimlist, key, prec, nrec, extra, step)


def nonsense(ch):
    """Meta files that make no sense, files that don't belong together and nonsense requests: refused."""
    what = ch.choose('what', ['no nrecords', 'no dataprec', 'no bracket', 'no end', 'no semicolon', 'garbage', 'dataprec',
                              'tiles disagree on size', 'tiles disagree on records', 'tiles disagree on type',
                              'machineformat', 'rec', 'negative rec', 'lev', 'too many levs', 'far too many levs', 'no data file'])
    mm = ch.flag('usememmap')
    some = ch.choose('records', [None, 0, [0, 1]]) if 'lev' in what else None
    ch.commit()
    a = mdsref.values(2, (2, 2, 3))
    base = ch.tmp('F')
    kw = dict(usememmap=mm, rec=some)
    if 'disagree' in what:
        b = {'size': a[..., :2, :2], 'records': a[:1], 'type': a}[what.split()[-1]]
        ga, gb = (2, 2, 6), (2, 2, 6) if 'size' not in what else (2, 2, 4)
        mdsref.write(base, a, tile=[(0, 2), (0, 2), (0, 3)], gdims=ga, suffix='.001.001')
        mdsref.write(base, b, tile=[(0, 2), (0, 2), (gb[2] - b.shape[-1], gb[2])], gdims=gb, suffix='.002.001',
                     prec='float32' if 'type' in what else 'float64')
    else:
        mdsref.write(base, a)
        text = open(base + '.meta').read()
        new = {'no nrecords': text.replace('nrecords', 'nrec'), 'no dataprec': text.replace('dataprec', 'prec'),
               'no bracket': text.replace('[', '', 1), 'no end': text.rstrip().rstrip('];'),
               'no semicolon': text.replace('];', ']', 1), 'garbage': 'hello\n' + text,
               'dataprec': text.replace('float64', 'float16')}.get(what, text)
        ref.put(base + '.meta', new.encode())
        kw.update({'machineformat': dict(machineformat='x'), 'rec': dict(rec=2), 'negative rec': dict(rec=[0, -3]),
                   'lev': dict(lev=2), 'too many levs': dict(lev=(0, 0)), 'far too many levs': dict(lev=([0], [1], [1], [0]))}.get(what, {}))
        if what == 'no data file':
            os.unlink(base + '.data')
    before = ref.listing(ch.scratch)
    o = ch.call(sg.mds.rdmds, base, **kw)
    ch.check(not o.ok, '{}: rdmds {}', what, o)
    ch.check(ref.listing(ch.scratch) == before, 'reading changed the files')
    ch.state(what, mm, some)


def beyond(ch):
    """Regions that reach beyond the field: refused, or as if there were no tiles."""
    nx, ny, size = ch.choose('field', [(3, 2, (3, 2)), (4, 2, (2, 1)), (2, 3, (1, 3))])
    x = ch.choose('x', [(0, nx + 1), (-nx - 2, nx), (nx - 1, nx + 2), (nx, nx + 1), (nx + 3, nx + 4), (0, nx), (-1, nx + 1)])
    y = ch.choose('y', [(0, ny), (0, ny + 2), (1 - ny - 2, ny), (ny, ny + 2), (ny + 5, ny + 6)])
    mm = ch.flag('usememmap')
    rec = ch.choose('rec', [None, 1])
    ch.commit()
    a = mdsref.values(2, (ny, nx))
    for k in range(nx // size[0]):
        for j in range(ny // size[1]):
            box = [(j * size[1], j * size[1] + size[1]), (k * size[0], k * size[0] + size[0])]
            mdsref.write(ch.tmp('F'), a[:, box[0][0]:box[0][1], box[1][0]:box[1][1]], tile=box, gdims=(ny, nx),
                         suffix='.{:03d}.{:03d}'.format(k + 1, j + 1))
    o = ch.call(sg.mds.rdmds, ch.tmp('F'), region=x + y, usememmap=mm, rec=rec, fill_value=-5)
    ch.state(nx, ny, size, x, y, mm, rec)
    if o.ok:
        big = np.full((2, ny + 20, nx + 20), -5.)
        big[:, 10:10 + ny, 10:10 + nx] = a
        (x0, x1), (y0, y1) = [[v + n if v < 0 else v for v in w] for w, n in ((x, nx), (y, ny))]
        want = big[:, 10 + y0:10 + y1, 10 + x0:10 + x1]
        compare(ch, o.value, want if rec is None else want[rec], 'region {} {}'.format(x, y))


SMALL = [((4, 2), (2, 1)), ((3, 2), (1, 2)), ((3, 4), (3, 2)), ((2, 3), (2, 3))]
LAYOUTS = [(2, [(4, 2), (2, 3)], (2, 1)), (2, [(2, 2), (4, 4), (2, 2)], (2, 2)), (4, [(4, 2), (8, 2)], (4, 2)),
           (1, [(2, 2), (3, 2)], (1, 2)), (3, [(3, 3), (6, 3)], (3, 3))]


def scenarios(tier):
    if tier == 'thorough':
        return [('tiles', tiles(SMALL + [((4, 4), (2, 2)), ((6, 1), (2, 1))], all_regions)),
                ('selections', selections([(1, (2, 3)), (3, (2, 3)), (1, (2, 2, 3)), (3, (2, 2, 3)), (3, (2, 3, 2, 3)), (2, (1, 2, 2, 2, 3))])),
                ('many tiles', many([((24, 2), (2, 1)), ((2, 33), (1, 3)), ((130, 1), (1, 1)), ((12, 10), (1, 1))])),
                ('deep', deep([(1, 30, 4), (1, 2, 120), (25, 2, 5), (1, 1, 50), (130, 1, 1), (11, 11, 11)])),
                ('iterations', iterations), ('kinds', kinds), ('blank', blank([(4, 2, (2, 2)), (3, 2, (1, 1)), (6, 6, (2, 3))])), ('facets', facets(LAYOUTS + [(6, [(6, 6), (2, 6), (12, 2)], (2, 2))])),
                ('truncated', truncated), ('read only', readonly), ('meta files', metafiles), ('beyond', beyond), ('nonsense', nonsense)]
    return [('tiles', tiles(SMALL, few_regions)),
            ('selections', selections([(1, (2, 3)), (3, (2, 3)), (2, (2, 2, 3)), (3, (2, 3, 2, 3))])),
            ('many tiles', many([((12, 2), (1, 1)), ((3, 33), (3, 3)), ((104, 1), (1, 1))])),
            ('deep', deep([(1, 12, 2), (1, 1, 50), (12, 2, 3)])),
            ('iterations', iterations), ('kinds', kinds), ('blank', blank([(4, 2, (2, 2))])), ('facets', facets(LAYOUTS)),
            ('truncated', truncated), ('read only', readonly), ('meta files', metafiles), ('beyond', beyond), ('nonsense', nonsense)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P19', 'model_checking', scenarios,
        'all tilings x subsets of tiles missing x regions; all combinations of records, levels, regions, iterations, '
        'reading modes; folded facets; every truncation; meta file formats',
        ['all tiles of a field have the same size, as MITgcm writes them'],
        {'quick': 'fields up to 3 x 2 x 3 x 2 x 3, up to 4 tiles; up to 104 tiles, one missing; up to 50 levels, 12 records or iterations',
         'thorough': 'all regions, up to 5 dimensions; up to 130 tiles or iterations, 120 levels, 30 records'}))
