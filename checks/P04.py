"""Success is only reported for output that is completely on disk."""
import os
import sys

import numpy as np

from mc import engine, mdsref, obcs, ref, sg


def outcome(ch, r, done, what):
    """r: how the writer ended; done: is all output there and right?"""
    success = r[0] == 'ok' and r[1] in (True, None, 0) or r[0] == 'exit' and r[1] in (0, None)
    if r[0] == 'ok' and not success:
        success = r[1] is not False
    ch.check(r[0] != 'killed', '{}: killed by signal {}', what, r[1])
    ch.check(done or not success, '{}: success reported ({}), but the output is incomplete', what, r)
    return success


def content(path):
    return open(path, 'rb').read() if os.path.exists(path) else None


def gridfile(sizes):
    def run(ch):
        ni, nj = ch.choose('size', sizes)
        size = 16 * (ni + 1) * (nj + 1) * 8
        before = ch.choose('file before', ['none', 'same file', 'longer'])
        n = ch.choose('no room beyond byte', range(size + 1))
        ch.commit()
        g = ref.labels(ni, nj)
        want = ref.pack(g, ni, nj)
        path = ch.tmp('a.mitgrid')
        if before != 'none':
            ref.put(path, b'\x5a' * (len(want) if before == 'same file' else 2 * len(want)))
        r = ch.in_child(lambda: sg.gridio.write_mitgridfile(path, g, ni, nj), limit=n)
        ok = outcome(ch, r, content(path) == want, 'grid file of {} bytes, room for {}'.format(size, n))
        ch.check(ok or n < size, 'there was room, but writing {}', r)
        ch.state(ni, nj, before, n, ok)
    return run


def devices(ch):
    """No space at all, or nowhere to write."""
    what = ch.choose('writer', ['grid file', 'mds', 'mkgrid', 'regrid', 'addfringe', 'stitch'])
    where = ch.choose('target', ['/dev/full', 'missing directory', 'directory'])
    ch.commit()
    if where == '/dev/full':
        path = ch.tmp('full')
        os.symlink('/dev/full', path)
    elif where == 'missing directory':
        path = ch.tmp('no/such/dir/out')
    else:
        path = ch.tmp('dir')
        os.mkdir(path)
    if what == 'mds':
        if where == '/dev/full':
            os.symlink('/dev/full', path + '.data')
        elif where == 'directory':
            os.mkdir(path + '.data')
    ext = '.data' if what == 'mds' else ''
    ch.in_child(writer(ch, what, ch.tmp('plain')))
    r = ch.in_child(writer(ch, what, path))
    ch.state(what, where, r[0])
    # (there may be ways: make the directory, replace the link)
    done = os.path.isfile(path + ext) and content(path + ext) == content(ch.tmp('plain') + ext)
    outcome(ch, r, done, '{} to {}'.format(what, where))


def writer(ch, what, path):
    ni, nj = 2, 2
    XG, YG = ref.warped(2 * ni, nj)
    a = ref.put(ch.tmp('in-a'), ref.pack(ref.full(XG[:ni + 1], YG[:ni + 1]), ni, nj))
    b = ref.put(ch.tmp('in-b'), ref.pack(ref.full(XG[ni:], YG[ni:]), ni, nj))
    tiles = ['--tilea', a, '--nia', ni, '--nja', nj, '--tileb', b, '--nib', ni, '--njb', nj,
             '--outfile', path]
    argv = {
        'mkgrid': ['--lon1', 1, '--lat1', 3, '--lon2', 4, '--lat2', 1, '--lon_subscale', 2,
                   '--lat_subscale', 1, '--outfile', path],
        'regrid': ['--mitgridfile', a, '--ni', ni, '--nj', nj, '--lon1', XG[0, nj], '--lat1', YG[0, nj],
                   '--lon2', XG[ni, 0], '--lat2', YG[ni, 0], '--lon_subscale', 1,
                   '--lat_subscale', 1, '--outfile', path],
        'addfringe': tiles, 'stitch': tiles}
    if what == 'grid file':
        return lambda: sg.gridio.write_mitgridfile(path, ref.labels(2, 1), 2, 1)
    if what == 'mds':
        return lambda: sg.mds.wrmds(path, np.arange(12.).reshape(3, 4))
    mod = {'mkgrid': sg.mkgrid, 'regrid': sg.regrid, 'addfringe': sg.addfringe, 'stitch': sg.stitch}[what]

    def go():
        sys.argv = [what] + [str(x) for x in argv[what]]
        return mod.main()
    return go


def commands(step):
    """The command line tools: exit status against what is on disk."""
    def run(ch):
        what = ch.choose('tool', ['mkgrid', 'regrid', 'addfringe', 'stitch'])
        path = ch.tmp('out')
        r = CLEAN.get(what)
        if r is None:
            res = ch.in_child(writer(ch, what, path))
            ch.check(res in (('ok', None), ('exit', 0), ('exit', None), ('ok', 0)), '{}: {}', what, res)
            r = CLEAN[what] = content(path)
            os.remove(path)
        n = ch.choose('no room beyond byte', sorted(set(range(0, len(r) + 1, step)) | {
            1, 7, 8, 511, 512, len(r) - 8, len(r) - 1, len(r)}))
        ch.commit()
        res = ch.in_child(writer(ch, what, path), limit=max(n, 0))
        ok = outcome(ch, res, content(path) == r, '{}, room for {} of {} bytes'.format(what, n, len(r)))
        ch.check(ok or n < len(r), '{}: there was room, but {}', what, res)
        ch.state(what, n, ok)
    return run


CLEAN = {}


def mdsfile(ch):
    """MDS files: meta and data."""
    prec = ch.choose('dataprec', ['float32', 'float64'])
    fmt = ch.choose('machineformat', ['b', 'l'])
    n = ch.choose('no room beyond byte', range(0, 500))
    ch.commit()
    arr = mdsref.values(1, (6, 9))[0]
    want = arr.astype(('>' if fmt == 'b' else '<') + ('f4' if prec == 'float32' else 'f8')).tobytes()
    path = ch.tmp('T')
    r = ch.in_child(lambda: sg.mds.wrmds(path, arr, itr=3, dataprec=prec, machineformat=fmt), limit=n)
    done = content(path + '.0000000003.data') == want
    if done:
        back = ch.call(sg.mds.rdmds, path, 3, machineformat=fmt)
        done = back.ok and np.array_equal(back.value, arr)
    ok = outcome(ch, r, done, 'wrmds of {} bytes, room for {}'.format(len(want), n))
    ch.check(ok or n < max(len(want), 200), 'there was room for {}, but wrmds {}', n, r)
    ch.state(prec, fmt, n, ok)


def boundaries(step):
    """Open boundary files."""
    def run(ch):
        case = obcs.Case(3, 2, 4, 3, times=(0, 24), depths=2)
        before = ch.choose('files before', ['none', 'longer'])
        size = 4 * 2 * 2 * 8
        n = ch.choose('no room beyond byte', range(0, size + 1, step))
        ch.commit()
        run = ch.tmp('run')
        case.write_results(run, fields=('T', 'U'))
        out = ch.tmp('out')
        go = lambda: sg.getobcs.getobcs(     # noqa
            parent_resultsdir=run, resultsdir=out, parent_mitgrid_matrices=case.parent,
            regional_mitgrid_matrices=case.region)
        ch.must('getobcs', go)               # leaves interpolation weights to be reused
        want = {f: content(os.path.join(out, f)) for f in os.listdir(out) if f.startswith('OB')}
        ch.check(len(want) == 8 and max(len(v) for v in want.values()) == size,
                 'files written: {}', {k: len(v) for k, v in want.items()})
        for f in want:
            os.remove(os.path.join(out, f))
            if before != 'none':
                ref.put(os.path.join(out, f), b'\x5a' * 2 * size)
        r = ch.in_child(go, limit=n)
        done = all(content(os.path.join(out, f)) == want[f] for f in want)
        ok = outcome(ch, r, done, 'getobcs, room for {} of {} bytes'.format(n, size))
        ch.state(before, n, ok)
    return run


def scenarios(tier):
    big = tier == 'thorough'
    return [('grid file', gridfile([(1, 1), (2, 1), (2, 2)] if big else [(1, 1)])),
            ('nowhere to write', devices), ('commands', commands(8 if big else 64)), ('mds', mdsfile),
            ('boundaries', boundaries(1 if big else 8))]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P04', 'fault_enumeration', scenarios,
        'the disk is full (a file cannot grow) at every byte of every kind of output file; '
        'success reported against the bytes on disk',
        ['faults: file size limit (EFBIG), no space (ENOSPC), missing or unsuitable target'],
        {'quick': 'grid file: every byte of 512; MDS: every byte; tools: every 64th, boundary files: '
                  'every 8th byte', 'thorough': 'grid files up to 2x2; tools: every 8th byte; '
                  'boundary files: every byte'}))
