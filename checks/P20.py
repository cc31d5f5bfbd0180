"""mds2mitgrid: the grid is exactly what the MDS grid files say, absent fields are None."""
import itertools
import os
import sys

import numpy as np

from mc import engine, mdsref, ref, sg


def field(name, ni, nj):
    return 1000. * (ref.NAMES.index(name) + 1) + mdsref.values(1, (nj, ni)) + 1 / 3.


def put(run, name, a, prec='float64', size=None, missing=()):
    nj, ni = a.shape[-2:]
    base = os.path.join(run, name)
    if size is None:
        mdsref.write(base, a, prec=prec)
        return a
    a = a.copy()
    n = 0
    for y0 in range(0, nj, size[1]):
        for x0 in range(0, ni, size[0]):
            if n in missing:
                a[..., y0:y0 + size[1], x0:x0 + size[0]] = 0
            else:
                mdsref.write(base, a[..., y0:y0 + size[1], x0:x0 + size[0]], prec=prec, gdims=(nj, ni),
                             tile=[(y0, y0 + size[1]), (x0, x0 + size[0])],
                             suffix='.{:03d}.{:03d}'.format(x0 // size[0] + 1, y0 // size[1] + 1))
            n += 1
    return a


def verify(ch, res, want, ni, nj):
    """want: {name: (1, nj, ni)} of the fields that are there."""
    ch.check(isinstance(res, tuple) and len(res) == 3, 'three results expected')
    grid, gi, gj = res
    ch.check((gi, gj) == ((ni, nj) if want else (0, 0)), 'counts {} of a {} x {} grid', (gi, gj), ni, nj)
    ch.check(set(grid) == set(ref.NAMES), 'fields {}', sorted(grid))
    for k in ref.NAMES:
        if k not in want:
            ch.check(grid[k] is None, '{} is not there, but read', k)
            continue
        si, sj = ref.STAG[k]
        ch.check(grid[k] is not None and grid[k].shape == (ni + si, nj + sj), '{} is there, but {}', k,
                 'not read' if grid[k] is None else grid[k].shape)
        w = np.zeros((ni + si, nj + sj))
        w[:ni, :nj] = want[k][0].T
        ch.check(ref.same(grid[k], w), '{} is {}, should be {}', k, grid[k].tolist(), w.tolist())


def subsets(ch_sizes):
    """Which fields are there."""
    def h(ch):
        lo, hi = ch_sizes
        n = ch.choose('how many', list(range(0, lo + 1)) + list(range(16 - hi, 17)) if lo + hi < 16 else 17)
        sets = list(itertools.combinations(ref.NAMES, n))
        part = ch.choose('part', (len(sets) + 19) // 20)
        ch.commit()
        for m, names in enumerate(sets[part * 20:part * 20 + 20]):
            run = ch.tmp('run{}'.format(m))
            os.makedirs(run)
            want = {k: put(run, k, field(k, 2, 1)) for k in names}
            verify(ch, ch.must('mds2mitgrid', sg.mds2mitgrid.mds2mitgrid, run), want, 2, 1)
            ch.state(names)
    return h


def layouts(sizes, forms=('plain', 'slash', 'relative', 'default')):
    """Shapes, tiles, precisions, directories."""
    def h(ch):
        ni, nj = ch.choose('size', sizes)
        size = ch.choose('tiles', [None] + [(a, b) for a in range(1, ni + 1) if ni % a == 0
                                            for b in range(1, nj + 1) if nj % b == 0])
        prec = ch.choose('precision', ['float64', 'float32'])
        n = (ni // size[0]) * (nj // size[1]) if size else 1
        missing = ch.choose('missing', [()] + [(k,) for k in range(n) if n < 12 or k in (0, 9, n - 1)] if n > 1 else [()])
        form = ch.choose('directory', forms)
        verbose = ch.flag('verbose')
        ch.commit()
        run = ch.tmp('run')
        os.makedirs(run)
        want = {}
        for k in ref.NAMES:
            a = put(run, k, field(k, ni, nj), prec, size, missing)
            want[k] = a.astype('f4').astype(float) if prec == 'float32' else a
        for other in ('XCx', 'hFacC', 'Depth', 'AngleCS', 'rAC'):
            put(run, other, field('XC', ni, nj))
        before = ref.listing(run)
        old = os.getcwd()
        try:
            if form == 'default':
                os.chdir(run)
                args = ()
            elif form == 'relative':
                os.chdir(ch.scratch)
                args = ('run',)
            else:
                args = (run + os.sep * (form == 'slash'),)
            res = ch.must('mds2mitgrid', sg.mds2mitgrid.mds2mitgrid, *args, verbose=verbose)
        finally:
            os.chdir(old)
        verify(ch, res, want, ni, nj)
        ch.check(ref.listing(run) == before, 'reading changed the files')
        # and it makes a grid file that holds the same, cleanly padded
        f = ch.tmp('out.mitgrid')
        ch.must('write_mitgridfile', sg.gridio.write_mitgridfile, f, res[0], ni, nj)
        back = ch.must('read_mitgridfile', sg.gridio.read_mitgridfile, f, ni, nj, True)
        verify(ch, (back, ni, nj), want, ni, nj)
        ch.state(ni, nj, size, prec, missing, form)
    return h


CONTENT = {'zero': 0., 'minus zero': -0., 'NaN': np.nan, 'infinite': np.inf, 'one': 1., 'tiny': 5e-324, 'huge': -1e300}


def contents(ch):
    """Fields whose terms are all alike, among others."""
    kinds = ['ramp'] + list(CONTENT)
    pair = ch.choose('fields', [(k,) for k in ref.NAMES] + [('XC', 'YC'), ('XG', 'YG'), ('XC', 'DXG'), ref.NAMES])
    kind = ch.choose('terms', kinds)
    others = ch.choose('others', ['ramp', 'absent'])
    size = ch.choose('tiles', [None, (1, 2), (2, 1)])
    ch.commit()
    run = ch.tmp('run')
    os.makedirs(run)
    want = {}
    for k in ref.NAMES:
        if k in pair and kind != 'ramp':
            want[k] = put(run, k, np.full((1, 2, 2), CONTENT[kind]), 'float64', size)
        elif k in pair or others == 'ramp':
            want[k] = put(run, k, field(k, 2, 2), 'float64', size)
    verify(ch, ch.must('mds2mitgrid', sg.mds2mitgrid.mds2mitgrid, run), want, 2, 2)
    ch.state(pair, kind, others, size)


def broken(ch):
    """A file that is there but can't be read isn't passed over as absent."""
    name = ch.choose('field', ref.NAMES)
    how = ch.choose('how', ['short by one', 'short by one term', 'empty', 'garbage', 'no meta content', 'no nrecords',
                            'one tile short', 'tiles disagree', 'too long', 'no data', 'one tile without data',
                            'one tile without data, the other not there'])
    prec = ch.choose('precision', ['float64', 'float32'])
    ch.commit()
    run = ch.tmp('run')
    os.makedirs(run)
    want = {}
    for k in ref.NAMES:
        a = put(run, k, field(k, 2, 2), prec, (1, 2) if 'tile' in how else None)
        want[k] = a.astype('f4').astype(float) if prec == 'float32' else a
    base = os.path.join(run, name) + ('.002.001' if 'tile' in how else '')
    data, meta = open(base + '.data', 'rb').read(), open(base + '.meta').read()
    if 'short' in how:
        data = data[:-(8 if prec == 'float64' else 4) if how == 'short by one term' else -1]
    elif how == 'empty':
        data = b''
    elif how == 'too long':
        data += b'12345678'
    elif 'data' in how:
        data = None
    else:
        meta = {'garbage': 'x' + meta, 'no meta content': '', 'no nrecords': meta.replace('nrecords', 'n'),
                'tiles disagree': meta.replace('nrecords = [     1', 'nrecords = [     2')}[how]
    if 'not there' in how:
        os.unlink(os.path.join(run, name) + '.001.001.data')
        os.unlink(os.path.join(run, name) + '.001.001.meta')
    if data is None:
        os.unlink(base + '.data')
    else:
        ref.put(base + '.data', data)
    ref.put(base + '.meta', meta.encode())
    o = ch.call(sg.mds2mitgrid.mds2mitgrid, run)
    ch.check(not o.ok, '{} is there, but {}: mds2mitgrid {}', name, how, o)
    ch.state(name, how, prec)


def histories(ch):
    """Results stay what they were when files change later."""
    seq = [ch.choose('step {}'.format(k + 1), ['write XC', 'write YG', 'remove XC', 'wider']) for k in range(3)]
    ch.commit()
    run = ch.tmp('run')
    os.makedirs(run)
    ni, now, results = 2, {}, []
    for n, op in enumerate(seq):
        if op == 'wider':
            ni = 5 - ni
            now = {k: None for k in now}
        names = list(now) if op == 'wider' else [op.split()[1]]
        for k in names:
            if op.startswith('remove'):
                if now.pop(k, None) is not None:
                    os.unlink(os.path.join(run, k + '.data'))
                    os.unlink(os.path.join(run, k + '.meta'))
            else:
                now[k] = put(run, k, field(k, ni, 2) + n)
        results.append((ch.must('mds2mitgrid', sg.mds2mitgrid.mds2mitgrid, run), dict(now), ni))
        for r in results:
            verify(ch, r[0], r[1], r[2], 2)
        ch.state(seq[:n + 1])


def scenarios(tier):
    if tier == 'thorough':
        return [('subsets', subsets((16, 0))), ('layouts', layouts([(1, 1), (1, 3), (4, 1), (2, 2), (4, 2), (3, 4), (6, 4)])),
                ('large', layouts([(12, 10), (40, 3), (2, 60), (33, 34)], ['plain'])),
                ('broken', broken), ('contents', contents), ('histories', histories)]
    return [('subsets', subsets((2, 2))), ('layouts', layouts([(1, 1), (1, 3), (4, 1), (2, 2), (4, 2)])), ('large', layouts([(12, 3), (2, 33)], ['plain'])),
            ('broken', broken), ('contents', contents), ('histories', histories)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P20', 'model_checking', scenarios,
        'all subsets of fields; all sizes x tilings x one tile missing x precisions; fields of equal terms (zero, NaN, ...); every field broken in every way; '
        'histories of changes to the directory', [],
        {'quick': 'subsets of up to 2 and from 14 fields; grids up to 4 x 2; 12 x 3, 2 x 33', 'thorough': 'all 65536 subsets; grids up to 6 x 4; up to 40 x 3, 2 x 60, 33 x 34'}))
