"""Grid files: written and read without loss, in the documented layout."""
import os
import sys

import numpy as np

from mc import engine, ref, sg

W, RD = sg.gridio.write_mitgridfile, sg.gridio.read_mitgridfile
SPECIAL = [np.nan, np.inf, -np.inf, -0., 5e-324, -5e-324, 1.7976931348623157e308,
           2.2250738585072014e-308, 1 / 3., -180., 360., 1e-300,
           # (NaNs other than that of numpy)
           np.uint64(0x7ff8dead00000001).view('f8'), np.uint64(0xfff8000000000000).view('f8')]


def content(kind, ni, nj):
    if kind == 'labels':
        return ref.labels(ni, nj)
    if kind == 'special values':
        g = ref.labels(ni, nj)
        n = 0
        for k in ref.NAMES:
            flat = g[k].ravel()
            for m in range(flat.size):
                if (m + n) % 2 == 0:
                    flat[m] = SPECIAL[(m // 2 + n) % len(SPECIAL)]
            n += 1
            g[k] = flat.reshape(g[k].shape)
        return g
    if kind == 'grid':
        return ref.full(*ref.warped(ni, nj))
    if kind == 'zeros':
        return {k: np.zeros_like(v) for k, v in ref.labels(ni, nj).items()}


def layout(kind, g):
    if kind == 'fortran':
        return {k: np.asfortranarray(v) for k, v in g.items()}
    if kind == 'big endian':
        return {k: v.astype('>f8') for k, v in g.items()}
    if kind == 'strided':
        return {k: np.repeat(np.repeat(v, 2, 0), 3, 1)[::2, ::3] for k, v in g.items()}
    if kind == 'reversed views':
        return {k: v[::-1, ::-1].copy()[::-1, ::-1] for k, v in g.items()}
    if kind == 'read only, other key order':
        out = {k: g[k].copy() for k in sorted(g, reverse=True)}
        for v in out.values():
            v.flags.writeable = False
        return out
    return {k: v.copy() for k, v in g.items()}


KINDS = ['labels', 'special values', 'grid', 'zeros']
LAYOUTS = ['plain', 'fortran', 'big endian', 'strided', 'reversed views', 'read only, other key order']
BEFORE = ['none', 'shorter', 'same size', 'longer']


def scen(sizes, kinds=KINDS, layouts=LAYOUTS, files=BEFORE):
    def roundtrip(ch):
        ni, nj = ch.choose('size', sizes)
        kind = ch.choose('content', kinds)
        lay = ch.choose('memory layout', layouts)
        old = ch.choose('file before', files)
        ch.commit()
        g = content(kind, ni, nj)
        arg = layout(lay, g)
        before = sg.snapshot(arg)
        want = ref.pack(g, ni, nj)
        path = ch.tmp('a.mitgrid')
        if old != 'none':
            n = {'shorter': len(want) // 2 + 3, 'same size': len(want), 'longer': 2 * len(want) + 5}[old]
            ref.put(path, b'\xa5' * n)
        ok = ch.must('writing a grid file', W, path, arg, ni, nj)
        ch.check(ok is True, 'write returned {!r}, not True', ok)
        ch.check(sg.snapshot(arg) == before, 'writing changed its argument')
        data = open(path, 'rb').read()
        ch.check(len(data) == len(want), 'file has {} bytes, not {}', len(data), len(want))
        if data != want:
            n = next(i for i in range(len(want)) if data[i] != want[i]) // 8
            f, rest = divmod(n, (ni + 1) * (nj + 1))
            j, i = divmod(rest, ni + 1)
            ch.fail('the term for {}[{},{}] is not as documented'.format(ref.NAMES[f], i, j))
        ch.state(ni, nj, kind, data)
        for strict in (False, True):
            back = ch.must('reading it back', RD, path, ni, nj, strict)
            ch.check(list(back) == list(ref.NAMES), 'fields read: {}', list(back))
            for k in ref.NAMES:
                ch.check(ref.same(back[k], g[k]), '{} read back differs: {} / {}', k, back[k], g[k])
        # and what was read can be written again
        path2 = ch.tmp('b.mitgrid')
        ok = ch.must('writing what was read', W, path2, back, ni, nj)
        ch.check(ok is True, 'write returned {!r}, not True', ok)
        ch.check(open(path2, 'rb').read() == want, 'copying a grid file changed it')
        ch.check(open(path, 'rb').read() == want, 'reading a grid file changed it')
    return roundtrip


def empties(ch):
    """Fields that aren't there become NaNs, and only those."""
    ni, nj = ch.choose('size', [(1, 1), (2, 1), (1, 3), (3, 2)])
    a = ch.choose('empty field', ref.NAMES)
    b = ch.choose('and', ref.NAMES)
    strict = ch.flag('strict')
    ch.commit()
    g = ref.labels(ni, nj)
    arg = dict(g)
    for k in (a, b):
        arg[k] = None
        g[k] = np.full_like(g[k], np.nan)
    path = ch.tmp('a.mitgrid')
    ch.check(ch.must('writing', W, path, arg, ni, nj) is True, 'write did not return True')
    data = open(path, 'rb').read()
    ch.check(np.array_equal(np.frombuffer(data, '>f8'), np.frombuffer(ref.pack(g, ni, nj), '>f8'),
                            equal_nan=True), 'file of a grid without {} and {} is wrong', a, b)
    ch.state(ni, nj, a, b)
    back = ch.must('reading it back', RD, path, ni, nj, strict)
    for k in ref.NAMES:
        ch.check(back[k].shape == g[k].shape and np.array_equal(back[k], g[k], equal_nan=True),
                 '{} read back differs', k)


def misfit(top):
    """Grids that are not what they are said to be: a field is left out, or has other counts."""
    def h(ch):
        ni, nj = ch.choose('ni', range(1, top + 1)), ch.choose('nj', range(1, top + 1))
        what = ch.choose('what', ['field left out', 'other counts', 'no grid', 'field transposed', 'field one more', 'field one less'])
        name = ch.choose('field', ref.NAMES) if what.startswith('field') else None
        di, dj = (ch.choose('di', [-1, 0, 1, 2]), ch.choose('dj', [-1, 0, 1, 2])) if what == 'other counts' else (0, 0)
        ch.commit()
        g = ref.labels(ni, nj)
        if what == 'field left out':
            del g[name]
        elif what == 'no grid':
            g = {}
        elif what.startswith('field'):
            old = g[name]
            g[name] = old.T.copy() if what == 'field transposed' else np.pad(old, 1)[:, 1:-1] if what == 'field one more' \
                else old[:, :-1].copy()
            try:        # (numpy's way to fill rows, columns)
                np.broadcast_to(g[name], old.shape)
                raise engine.Skip()
            except ValueError:
                pass
        elif (di, dj) == (0, 0) or min(ni + di, nj + dj) < 1:
            raise engine.Skip()
        ch.must_raise('writing a grid ({} {})'.format(what, name or (di, dj)), (KeyError, ValueError),
                      sg.gridio.write_mitgridfile, ch.tmp('g'), g, ni + di, nj + dj)
        ch.state(ni, nj, what, name, di, dj)
    return h


def history(depth):
    """Any sequence of writes and reads of two files, against the two grids last written."""
    grids = [((2, 1), 0.), ((1, 2), 5e7), ((2, 2), 9e7)]

    def run(ch):
        paths = [ch.tmp('a.mitgrid'), ch.tmp('b.mitgrid')]
        disk = [None, None]
        held = []
        ops = []
        for step in range(depth):
            op = ch.choose('op', ['write 0', 'write 1', 'write 2', 'read', 'copy', 'change'])
            f = ch.choose('file', [0, 1])
            ops.append((op, f))
        ch.commit()
        for op, f in ops:
            if op.startswith('write'):
                (ni, nj), base = grids[int(op[-1])]
                g = ref.labels(ni, nj, base)
                ch.check(ch.must(op, W, paths[f], g, ni, nj) is True, 'write did not return True')
                disk[f] = (ni, nj, {k: v.copy() for k, v in g.items()})
                held.append((g, {k: v.copy() for k, v in g.items()}))
            elif disk[f] is None:
                if op == 'read':
                    ch.must_raise('reading a file that does not exist', (OSError,), RD, paths[f], 1, 1)
                continue
            else:
                ni, nj, g = disk[f]
                back = ch.must(op, RD, paths[f], ni, nj, True)
                for k in ref.NAMES:
                    ch.check(ref.same(back[k], g[k]), '{} differs after {}', k, ops)
                if op == 'copy':
                    ch.check(ch.must(op, W, paths[1 - f], back, ni, nj) is True, 'no True')
                    disk[1 - f] = (ni, nj, g)
                elif op == 'change':        # changing what was read doesn't reach the file
                    back['XG'][0, 0] += 1
                    held.append((back, {k: v.copy() for k, v in back.items()}))
            for now, then in held:
                ch.check(all(ref.same(now[k], then[k]) for k in ref.NAMES),
                         'a grid in memory changed during {}', ops)
            ch.state(tuple(d and (d[0], d[1], d[2]['XC'][0, 0]) for d in disk))
        for f in (0, 1):
            if disk[f]:
                ni, nj, g = disk[f]
                ch.check(open(paths[f], 'rb').read() == ref.pack(g, ni, nj), 'file {} after {}', f, ops)
    return run


def scenarios(tier):
    big = tier == 'thorough'
    up = range(1, 8 if big else 5)
    n = range(5, 260 if big else 70)
    long = [(i, 1) for i in n] + [(1, i) for i in n] + [(2, i) for i in n] + [(i, i + 3) for i in n[:60]] + \
        [(1, 1000), (1001, 2), (90, 270), (270, 90)]
    return [('round trip', scen([(i, j) for i in up for j in up])),
            ('larger', scen(long, KINDS[:2], LAYOUTS[:2], BEFORE[:1])), ('missing fields', empties),
            ('misfits', misfit(4 if big else 3)), ('histories', history(4 if big else 3))]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P01', 'model_checking', scenarios,
        'all sizes x contents x array layouts x previous file contents; all pairs of missing '
        'fields; all fields left out and counts that do not fit; all sequences of writes, reads and copies of two files',
        ['files and directories behave (P03 and P04 are about those that do not)'],
        {'quick': 'ni,nj<=4, one or both up to 70, some up to 1000; histories of 3 operations',
         'thorough': 'ni,nj<=7, one up to 260; histories of 4 operations'}))
