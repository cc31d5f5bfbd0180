"""An incomplete grid file is never read as a grid."""
import os
import sys

import numpy as np

from mc import engine, ref, sg


def readers(path, ni, nj, XG, YG, other):
    """Everything that reads a grid file."""
    c = dict(lon1=XG[0, nj], lat1=YG[0, nj], lon2=XG[ni, 0], lat2=YG[ni, 0],
             lon_subscale=1, lat_subscale=1)
    return {
        'read': lambda: sg.gridio.read_mitgridfile(path, ni, nj),
        'strict read': lambda: sg.gridio.read_mitgridfile(path, ni, nj, True),
        'regrid': lambda: sg.regrid.regrid(mitgridfile=path, ni=ni, nj=nj, **c),
        'addfringe a': lambda: sg.addfringe.addfringe(
            tilea=path, nia=ni, nja=nj, tileb=other, nib=ni, njb=nj),
        'addfringe b': lambda: sg.addfringe.addfringe(
            tilea=other, nia=ni, nja=nj, tileb=path, nib=ni, njb=nj),
        'stitch a': lambda: sg.stitch.stitch(
            tilea=path, nia=ni, nja=nj, tileb=other, nib=ni, njb=nj),
        'stitch b': lambda: sg.stitch.stitch(
            tilea=other, nia=ni, nja=nj, tileb=path, nib=ni, njb=nj)}


def every(size, ni, nj):
    return range(size + 1)


def around(size, ni, nj):
    """A byte or a number before and after each field's beginning, and every so often."""
    at = set(range(0, size + 1, (ni + 1) * (nj + 1) * 8)) | set(range(0, size + 1, 4096))
    return sorted({n + d for n in at for d in (-8, -1, 0, 1, 8) if 0 <= n + d <= size})


def truncated(sizes, cuts=every):
    def run(ch):
        ni, nj = ch.choose('size', sizes)
        size = 16 * (ni + 1) * (nj + 1) * 8
        who = ch.choose('reader', ['read', 'strict read', 'regrid', 'addfringe a', 'addfringe b',
                                   'stitch a', 'stitch b'])
        n = ch.choose('bytes in file', cuts(size, ni, nj))
        ch.commit()
        XG, YG = ref.warped(2 * ni, nj)
        a, b = ref.full(XG[:ni + 1], YG[:ni + 1]), ref.full(XG[ni:], YG[ni:])
        path = ref.put(ch.tmp('a.mitgrid'), ref.pack(a, ni, nj)[:n])
        other = ref.put(ch.tmp('b.mitgrid'), ref.pack(b, ni, nj))
        f = readers(path, ni, nj, XG, YG, other)[who]
        ch.state(ni, nj, who, n)
        o = ch.call(f)
        if n == size:
            ch.check(o.ok, '{} of a complete file {}', who, o)
        else:
            ch.check(not o.ok, '{} accepted {} of {} bytes', who, n, size)
    return run


def xgyg(ch):
    """Binary XG, YG files, truncated."""
    ni, nj = ch.choose('size', [(1, 1), (2, 1), (1, 2), (2, 2)])
    which = ch.choose('truncated', ['xg', 'yg'])
    size = (ni + 1) * (nj + 1) * 8
    n = ch.choose('bytes in file', range(size + 1))
    ch.commit()
    XG, YG = ref.warped(ni, nj)
    dx, dy = [v.T.astype('>f8').tobytes() for v in (XG, YG)]
    px = ref.put(ch.tmp('xg.bin'), dx[:n] if which == 'xg' else dx)
    py = ref.put(ch.tmp('yg.bin'), dy[:n] if which == 'yg' else dy)
    ch.state(ni, nj, which, n)
    o = ch.call(sg.regrid.regrid, xg_file=px, yg_file=py, ni=ni, nj=nj, lon1=XG[0, nj],
                lat1=YG[0, nj], lon2=XG[ni, 0], lat2=YG[ni, 0], lon_subscale=1, lat_subscale=1)
    ch.check(o.ok == (n == size), 'regrid with {} of {} bytes of the {} file {}', n, size, which, o)


def judge(ch, path, ni, nj, old, new, what):
    """After a crash: the old grid, the new grid or an error; nothing in between."""
    o = ch.call(sg.gridio.read_mitgridfile, path, ni, nj)
    if o.ok:
        isnew = all(ref.same(o.value[k], new[k]) for k in ref.NAMES)
        isold = old is not None and all(ref.same(o.value[k], old[k]) for k in ref.NAMES)
        ch.check(isnew or isold, '{}: the file reads as a grid that nobody wrote', what)
        return 'new' if isnew else 'old'
    return 'rejected'


def crash_at_byte(step):
    """The process dies once the file has grown to n bytes."""
    def run(ch):
        ni, nj = ch.choose('size', [(1, 1), (2, 1)])
        before = ch.choose('file before', ['none', 'other grid'])
        size = 16 * (ni + 1) * (nj + 1) * 8
        n = ch.choose('dies at byte', sorted(set(range(0, size + 1, step)) | {1, 7, size - 8, size - 1, size}))
        ch.commit()
        old, new = ref.labels(ni, nj, 5e7), ref.labels(ni, nj)
        path = ch.tmp('a.mitgrid')
        if before != 'none':
            ref.put(path, ref.pack(old, ni, nj))
        r = ch.in_child(lambda: sg.gridio.write_mitgridfile(path, new, ni, nj), limit=n, kill=True)
        ch.check(r[0] == 'killed' or (n >= size and r == ('ok', True)),
                 'writing a file of {} bytes, dying at {}: {}', size, n, r)
        if os.path.exists(path):
            res = judge(ch, path, ni, nj, old if before != 'none' else None, new,
                        'writer died at byte {} of {}'.format(n, size))
        else:
            res = 'none'
        ch.state(ni, nj, before, n, res)
        if n == size:
            ch.check(res == 'new', 'after a complete write the file is {}', res)
    return run


def crash_at_step(ch):
    """The process dies between any two lines of Python code on the way."""
    ni, nj = ch.choose('size', [(2, 1), (13, 11)])
    before = ch.choose('file before', ['none', 'other grid'])
    nlines = LINES.get((ni, nj))
    if nlines is None:
        count = [0]
        tmp = ch.tmp('count')
        _traced(count, None, lambda: sg.gridio.write_mitgridfile(tmp, ref.labels(ni, nj), ni, nj))
        nlines = LINES[(ni, nj)] = count[0]
    n = ch.choose('dies before step', range(1, nlines + 1))
    ch.commit()
    old, new = ref.labels(ni, nj, 5e7), ref.labels(ni, nj)
    path = ch.tmp('a.mitgrid')
    if before != 'none':
        ref.put(path, ref.pack(old, ni, nj))
    r = ch.in_child(lambda: _traced([0], n, lambda: sg.gridio.write_mitgridfile(path, new, ni, nj)))
    ch.check(r == ('exit', 77) or r[0] == 'ok', 'did not get to step {} of {}: {}', n, nlines, r)
    res = 'none'
    if os.path.exists(path):
        res = judge(ch, path, ni, nj, old if before != 'none' else None, new,
                    'writer died at step {} of {}'.format(n, nlines))
    # (over a file that exists there may be fewer steps)
    ch.check(r[0] != 'ok' or res == 'new', 'after a complete write the file is {}', res)
    ch.state(ni, nj, before, n, res)


LINES = {}


def _traced(count, stop, fn):
    root = sg.simplegrid.__path__[0]

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(root):
            return None
        if event == 'line':
            count[0] += 1
            if count[0] == stop:
                os._exit(77)
        return tracer
    sys.settrace(tracer)
    try:
        return fn()
    finally:
        sys.settrace(None)


def scenarios(tier):
    big = tier == 'thorough'
    return [('truncated file', truncated([(1, 1), (2, 1), (1, 2)] if big else [(1, 1)])),
            ('truncated large file', truncated([(13, 11), (1, 70), (70, 1)] if big else [(13, 11)], around)),
            ('truncated XG, YG', xgyg), ('crash at byte', crash_at_byte(1 if big else 4)),
            ('crash between steps', crash_at_step)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P03', 'fault_enumeration', scenarios,
        'a file cut off at every byte, by every reader; a large one around every field and page boundary; a writer killed at every byte and '
        'before every traced line, over no file and over a complete one',
        ['a crash of the process, not of the machine: what was written stays, in order'],
        {'quick': 'files of 512 bytes (1x1 cells) and around boundaries in one of 21504 bytes by every reader; crash at every 4th byte and '
                  'before every line', 'thorough': 'up to 2x1, 1x2 cells; crash at every byte'}))
