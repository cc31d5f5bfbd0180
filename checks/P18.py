"""MDS files: what wrmds writes is what was given, in the documented layout, and rdmds reads it back."""
import os
import sys

import numpy as np

from mc import engine, mdsref, ref, sg

FORMATS = {'b': '>', 'ieee-be': '>', '>': '>', 'l': '<', 'ieee-le': '<', '<': '<'}
PREC = {'float32': 'f4', 'float64': 'f8'}


def content(shape, what):
    n = int(np.prod(shape))
    a = (1. + np.arange(n)).reshape(shape)
    if what == 'special':
        v = np.array([np.nan, np.inf, -np.inf, -0., 0., 1 / 3., -1e-40, 3e38, np.pi])
        a = v[np.arange(n) % len(v)].reshape(shape).copy()
    elif what == 'int':
        a = a.astype(int)
    elif what == 'large int':
        a = a.astype('i8') * (2 ** 40 + 1) - 2 ** 25
    elif what == 'single':
        a = (a / 3).astype('f4')
    elif what == 'thirds':
        a = a / 3
    elif what == 'little endian':
        a = (a / 3).astype('<f8')
    elif what == 'big endian':
        a = (a / 3).astype('>f8')
    return a


def lay(a, how):
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if how == 'backwards':
        return a[..., ::-1].copy()[..., ::-1]
    return a


def split(shape, ndims, nrecords):
    """Record and field dimensions, as documented."""
    if ndims is None:
        if nrecords is None:
            ndims = min(3, len(shape))
        else:
            n, k = 1, 0
            while n < nrecords:
                n *= shape[k]
                k += 1
            ndims = len(shape) - k
    return ndims, int(np.prod(shape[:len(shape) - ndims]))


def squeezed(shape, nrec, dims):
    """Shape returned by default: leading record dimension unless it is single."""
    return ((nrec,) if nrec > 1 else ()) + dims


def verify(ch, base, a, ndims, nrec, prec, fmt, opts, meta_want):
    dims = a.shape[a.ndim - ndims:]
    tp = FORMATS[fmt] + PREC[prec]
    with np.errstate(all='ignore'):
        want = a.astype(PREC[prec])
    data = open(base + '.data', 'rb').read()
    ch.check(data == np.ascontiguousarray(want.astype(tp)).tobytes(),
             'data file of {} {} is not the array, {} {}, x fastest', a.dtype, a.shape, fmt, prec)
    for astype in (float, None, 'f4'):
        got = ch.must('rdmds', sg.mds.rdmds, opts[0], *opts[1], machineformat=fmt, astype=astype, returnmeta=True)
        r, its, meta = got
        with np.errstate(all='ignore'):
            w = want.astype(astype if astype is not None else PREC[prec]).reshape(squeezed(a.shape, nrec, dims))
        ch.check(r.shape == w.shape and np.array_equal(np.nan_to_num(r, nan=7), np.nan_to_num(w, nan=7))
                 and np.array_equal(np.isnan(r), np.isnan(w)) and np.array_equal(np.signbit(r), np.signbit(w)),
                 'rdmds returns {} {}, not what was written {}', r.dtype, r.shape, w.shape)
        ch.check(r.dtype == np.dtype(astype if astype is not None else tp), 'rdmds returns {}', r.dtype)
        for k, v in meta_want.items():
            ch.check(meta.get(k) == v, 'metadata {}: {!r} was written, {!r} is read', k, v, meta.get(k))
        ch.check(set(meta) == set(meta_want), 'metadata {} read, {} written', sorted(meta), sorted(meta_want))


def arrays(shapes):
    """Shapes, contents, layouts, precisions and byte orders."""
    def h(ch):
        shape = ch.choose('shape', shapes)
        what = ch.choose('content', ['thirds', 'special', 'int', 'large int', 'single', 'big endian', 'little endian'])
        how = ch.choose('layout', ['C', 'F', 'strided', 'backwards'])
        prec = ch.choose('dataprec', ['float32', 'float64', ['float64']])
        fmt = ch.choose('machineformat', list(FORMATS) if what == 'thirds' and how == 'C' else ['b', 'l'])
        ndims = ch.choose('ndims', [None] + list(range(2, len(shape) + 1)))
        nrecords = None
        if ndims is None and len(shape) > 2:
            nrecords = ch.choose('nrecords', [None] + sorted({int(np.prod(shape[:k])) for k in range(1, len(shape) - 1)} - {1}))
        old = ch.choose('files', ['new', 'exist']) if how == 'C' else 'new'
        ch.commit()
        nd, nrec = split(shape, ndims, nrecords)
        if nd < 2:
            raise engine.Skip()
        a = lay(content(shape, what), how)
        before = sg.snapshot(a)
        base = ch.tmp('F')
        if old == 'exist':
            for e in ('.meta', '.data'):
                ref.put(base + e, b' nDims = [   7 ];\n' * 500)
        kw = {k: v for k, v in (('ndims', ndims), ('nrecords', nrecords)) if v is not None}
        ch.must('wrmds', sg.mds.wrmds, base, a, dataprec=prec, machineformat=fmt, **kw)
        ch.check(sg.snapshot(a) == before, 'wrmds changed the array')
        p = prec if isinstance(prec, str) else prec[0]
        verify(ch, base, a, nd, nrec, p, fmt, (base, ()),
               {'ndims': [nd], 'dimlist': list(shape[::-1][:nd]), 'dataprec': [p], 'nrecords': [nrec]})
        ch.check(sorted(os.listdir(ch.scratch)) == ['F.data', 'F.meta'], 'files {}', sorted(os.listdir(ch.scratch)))
        ch.state(shape, what, how, prec, fmt, ndims, nrecords, old)
    return h


def metadata(ch):
    """Iterations, times, names: written and read back."""
    itr = ch.choose('itr', [None, 0, 1, 72, 1234567890])
    times = ch.choose('times', [None, 0., 3600., [0., 86400.], (1.5, 2.5e9), [126230401.0625, 98765432.10123]])
    deltat = ch.choose('deltat', [None, 1200., 0.5, [600.]])
    nfields = ch.choose('fields', [None, 1, 2, 19, 20, 21, 41, 100, 120])
    sim = ch.choose('simulation', [None, 'global ocean 32', ['run=1; x']])
    read = ch.choose('read by', ['number', 'list', 'name', 'all', 'last'])
    ch.commit()
    dt = deltat[0] if isinstance(deltat, list) else deltat
    if itr is None and times is None and dt is not None:
        raise engine.Skip()
    fields = None if nfields is None else ['F{}'.format(n) if n % 3 else 'LONGNAME'[:9 - n % 7] + 'ER' * (n % 6) for n in range(nfields)]
    a = content((max(nfields or 1, 1), 2, 3) if nfields else (2, 3), 'thirds')
    base = ch.tmp('F')
    kw = {k: v for k, v in (('itr', itr), ('times', times), ('deltat', deltat), ('fields', fields),
                            ('simulation', sim)) if v is not None}
    ch.must('wrmds', sg.mds.wrmds, base, a, dataprec='float64', ndims=2, **kw)
    tl = None if times is None else [times] if np.isscalar(times) else list(times)
    it = itr
    if dt is not None:
        if itr is None:
            it = int(round(tl[-1] / dt)) if (tl[-1] / dt) % 1 == 0 else int(tl[-1] / dt)
        elif times is None:
            tl = [dt * itr]
    full = base if it is None else base + '.{:010d}'.format(it)
    ch.check(sorted(os.listdir(ch.scratch)) == sorted(os.path.basename(full) + e for e in ('.meta', '.data')),
             'files {}', sorted(os.listdir(ch.scratch)))
    if it is None:
        if read not in ('number', 'name'):
            raise engine.Skip()
        how = (base, ())
    else:
        how = {'number': (base, (it,)), 'list': (base, ([it],)), 'name': (full, ()), 'all': (base, (np.nan,)),
               'last': (base, (np.inf,))}[read]
    want = {'ndims': [2], 'dimlist': [3, 2], 'dataprec': ['float64'], 'nrecords': [a.shape[0] if nfields else 1]}
    if it is not None:
        want['timestepnumber'] = [it]
    if tl is not None:
        want['timeinterval'] = [[float('{:.12E}'.format(t)) for t in tl]]
    if fields:
        want['nflds'] = [nfields]
        want['fldlist'] = fields
    if sim:
        want['simulation'] = sim if isinstance(sim, list) else [sim]
    verify(ch, full, a, 2, want['nrecords'][0], 'float64', 'b', how, want)
    ch.state(itr, times, deltat, nfields, sim, read)


def steps(top, deltats):
    """The iteration worked out from a time and the time step; the time from an iteration; and there and back."""
    from fractions import Fraction

    def h(ch):
        n = ch.choose('iteration', top)
        dt = ch.choose('deltat', deltats)
        part = ch.choose('of a step beyond', ['0', '1/4', '9/10'])
        kind = ch.choose('time is', ['decimal', 'product', 'of an interval', 'from its meta file'])
        ch.commit()
        exact = (n + Fraction(part)) * Fraction(dt)
        t, d = float(exact), float(Fraction(dt))
        if kind == 'product':
            t = (n + float(Fraction(part))) * d
        base = ch.tmp('F')
        a = content((2, 3), 'thirds')
        if kind == 'from its meta file':
            if part != '0':
                raise engine.Skip()
            ch.must('wrmds', sg.mds.wrmds, base, a, itr=n, deltat=d)
            _, its, meta = ch.must('rdmds', sg.mds.rdmds, base, np.nan, returnmeta=True)
            t = meta['timeinterval'][0][-1]
            ch.check(list(its) == [n] and abs(t - exact) <= 1e-12 * abs(exact), 'iteration {} is read as {} at {}', n, its, t)
        ch.must('wrmds', sg.mds.wrmds, ch.tmp('G'), a, times=[t - d, t] if kind == 'of an interval' else t, deltat=d)
        got = sorted(f for f in os.listdir(ch.scratch) if f.startswith('G'))
        ch.check(got == ['G.{:010d}.{}'.format(n, e) for e in ('data', 'meta')], 'time {!r} with steps of {!r} is {}, not {}',
                 t, d, got, n)
        its, meta = ch.must('rdmds', sg.mds.rdmds, ch.tmp('G'), n, returnmeta=True)[1:]
        ch.check(meta['timestepnumber'] == [n], 'iteration in the meta file: {}', meta.get('timestepnumber'))
        ch.state(n, dt, part, kind)
    return h


DELTATS = ['1', '1/10', '3/10', '7/10', '1/3', '1/7', '12/10', '5/2', '600', '1200', '3600', '86400', '1/1000', '401/4']

NAMES = ['x', 'global ocean 32', "it's", "it's 'quoted' text", "''a''b", "'a", "a'", "'a'", 'a // b', 'x /* y */ z', 'a } b',
         '};', '[ 1 ];', 'a = { b }', 'a  b', 'a, b', '1', '1.5e3', '-', '\u00e9', 'x' * 400]


QUOTED = [s for s in NAMES if '}' not in s and s == s.strip("'") and '/' not in s]
COMMENTED = [s for s in NAMES if '}' not in s and "'" not in s]


def names(ch):
    """Simulations and fields of any name."""
    sim = ch.choose('simulation', NAMES + [None])
    n = ch.choose('fields', [None, 1, 2, 21])
    # (in fldList, apostrophes delimit, so that text after one of their own may look like a comment)
    plain = ch.choose('fields without', [QUOTED, COMMENTED]) if n else QUOTED
    k = ch.choose('names of fields', len(plain)) if n else 0
    ch.commit()
    fields = None if n is None else [plain[(k + i) % len(plain)] for i in range(n)]
    if sim is None and n is None:
        raise engine.Skip()
    base = ch.tmp('F')
    a = content((n or 1, 2, 3), 'thirds')
    ch.must('wrmds', sg.mds.wrmds, base, a, dataprec='float64', ndims=2,
            **{key: v for key, v in (('fields', fields), ('simulation', sim)) if v is not None})
    want = {'ndims': [2], 'dimlist': [3, 2], 'dataprec': ['float64'], 'nrecords': [n or 1]}
    if n:
        want.update(nflds=[n], fldlist=fields)
    if sim is not None:
        want['simulation'] = [sim]
    verify(ch, base, a, 2, n or 1, 'float64', 'b', (base, ()), want)
    ch.state(sim, fields)


def commented(ch):
    """An apostrophe followed by what looks like a comment."""
    sim = ch.choose('simulation', ["it's a//b", "it's /* x */"])
    ch.commit()
    base = ch.tmp('F')
    a = content((2, 3), 'thirds')
    ch.must('wrmds', sg.mds.wrmds, base, a, simulation=sim)
    o = ch.call(sg.mds.rdmds, base, returnmeta=True)
    if not (o.ok and o.value[2].get('simulation') == [sim]):
        ch.finding('simulation:' + sim.split()[1][:2], 'simulation {!r}: rdmds {}'.format(sim, o))
    ch.state(sim)


def refused(ch):
    """Requests that make no sense are refused before anything is written."""
    shape = ch.choose('shape', [(2, 3), (2, 2, 3), (3, 2, 2, 2)])
    kw = ch.choose('with', [dict(dataprec='float16'), dict(dataprec='int'), dict(machineformat='x'),
                            dict(nrecords=5, ndims=2), dict(ndims=2, dimlist=[3, 3]), dict(ndims=2, dimlist=[2, 3, 9]),
                            dict(nrecords=7), dict(ndims=0), dict(ndims=-1), dict(ndims=-2), dict(ndims=5), dict(ndims=1.5), dict(ndims='2')])
    old = ch.choose('files', ['new', 'exist'])
    ch.commit()
    base = ch.tmp('F')
    if old == 'exist':
        for e in ('.meta', '.data'):
            ref.put(base + e, b'previous')
    before = {f: open(ch.tmp(f), 'rb').read() for f in os.listdir(ch.scratch)}
    o = ch.call(sg.mds.wrmds, base, content(shape, 'thirds'), **kw)
    ch.check(not o.ok, 'wrmds {} of a {} array {}', kw, shape, o)
    ch.check({f: open(ch.tmp(f), 'rb').read() for f in os.listdir(ch.scratch)} == before,
             'wrmds was refused ({}), but has written', o)
    ch.state(shape, kw, old)


def histories(depth):
    """Sequences of writes to two names and reads."""
    ops = [(n, s, p) for n in ('F', 'G') for s in ((2, 3), (2, 2, 3), (4, 1)) for p in ('float32', 'float64')]

    def h(ch):
        seq = [ch.choose('write {}'.format(k + 1), ops) for k in range(depth)]
        ch.commit()
        have = {}
        for n, (name, shape, prec) in enumerate(seq):
            a = content(shape, 'thirds') + n
            ch.must('wrmds', sg.mds.wrmds, ch.tmp(name), a, dataprec=prec, ndims=2)
            have[name] = a.astype(PREC[prec]).astype(float)
            for k, v in have.items():
                r = ch.must('rdmds', sg.mds.rdmds, ch.tmp(k))
                ch.check(ref.same(r, v), '{} is not what was written last', k)
            ch.state(seq[:n + 1])
    return h


def large(ch):
    """Dimensions of five digits and more."""
    shape = ch.choose('shape', [(2, 9999), (2, 10000), (12345, 2), (1, 100001), (2, 3, 10000), (40000, 1, 2), (3, 300, 400), (1100, 1000)])
    ndims = ch.choose('ndims', [2, None])
    ch.commit()
    a = content(shape, 'thirds')
    base = ch.tmp('F')
    ch.must('wrmds', sg.mds.wrmds, base, a, dataprec='float64', ndims=ndims)
    if ndims is None and shape[0] == 40000:
        raise engine.Skip()
    nd, nrec = split(shape, ndims, None)
    verify(ch, base, a, nd, nrec, 'float64', 'b', (base, ()),
           {'ndims': [nd], 'dimlist': list(shape[::-1][:nd]), 'dataprec': ['float64'], 'nrecords': [nrec]})
    ch.state(shape, ndims)


def scenarios(tier):
    shapes = [(2, 3), (1, 1), (3, 1), (1, 4), (2, 2, 3), (1, 2, 2), (2, 3, 2, 2)]
    if tier == 'thorough':
        shapes += [(3, 1, 2, 2), (2, 2, 2, 2, 2), (5, 7)]
    return [('arrays', arrays(shapes)), ('metadata', metadata), ('names', names), ('commented', commented), ('refused', refused),
            ('steps', steps([*range(300), 1001, 99999, 123457, 10 ** 7 + 1, 1234567890] if tier == 'thorough' else
                            [*range(40), 100, 12345, 1234567890], DELTATS if tier == 'thorough' else DELTATS[:-4])),
            ('histories', histories(3 if tier == 'thorough' else 2)), ('large', large)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P18', 'model_checking', scenarios,
        'all shapes x contents x layouts x precisions x byte orders x foldings; all combinations of '
        'iteration, times, names; iterations worked out from times and steps; nonsense requests; histories of writes',
        ['at least two field dimensions (rdmds needs x and y)', 'no braces in names of fields, no apostrophes at their ends, none before what looks like a comment; no line breaks in names'],
        {'quick': 'up to four dimensions; histories of two', 'thorough': 'up to five; histories of three'}))
