"""strict: data outside a field's nominal size are rejected, if and only if there are any."""
import sys

import numpy as np

from checks import P21
from mc import engine, obcs, ref, sg

VALUES = [1., -1., 5e-324, np.nan, np.inf, -0.]


def pads(ni, nj):
    """Every (field, i, j) of the file that is not part of the field."""
    out = []
    for n, k in enumerate(ref.NAMES):
        si, sj = ni + ref.STAG[k][0], nj + ref.STAG[k][1]
        for i in range(ni + 1):
            for j in range(nj + 1):
                if i >= si or j >= sj:
                    out.append((n, i, j))
    return out


def spoil(data, ni, nj, pos, value):
    raw = np.frombuffer(data, '>f8').copy()
    n, i, j = pos
    raw[n * (ni + 1) * (nj + 1) + j * (ni + 1) + i] = value
    return raw.tobytes()


def ends(ni, nj):
    """Only the first, a middle and the last of each field's positions, for large grids."""
    out = []
    for n in range(len(ref.NAMES)):
        p = [x for x in pads(ni, nj) if x[0] == n]
        out += [p[k] for k in sorted({0, len(p) // 2, len(p) - 1})] if p else []
    return out


OPS = ['read', 'regrid', 'addfringe tile a', 'addfringe tile b', 'stitch tile a', 'stitch tile b']


def single(sizes, values, pads=pads, ops=OPS):
    def run(ch):
        ni, nj = ch.choose('size', sizes)
        op = ch.choose('through', ops)
        pos = ch.choose('padding (field, i, j)', [None] + pads(ni, nj))
        value = ch.choose('value', values) if pos is not None else 0.
        strict, how, verbose = ch.choose('strict, verbose', [
            (False, 'left out', False), (False, 'given', True), (True, 'given', False), (True, 'by name', True),
            (False, 'left out', True)])
        ch.commit()
        XG, YG = ref.warped(2 * ni, nj, d=1.3 if max(ni, nj) < 9 else .05)
        a = ref.pack(ref.full(XG[:ni + 1], YG[:ni + 1]), ni, nj)
        b = ref.pack(ref.full(XG[ni:], YG[ni:]), ni, nj)
        bad = (lambda d: spoil(d, ni, nj, pos, value)) if pos is not None else (lambda d: d)
        pa, pb = ch.tmp('a.mitgrid'), ch.tmp('b.mitgrid')
        ref.put(pa, bad(a) if not op.endswith('b') else a)
        ref.put(pb, bad(b) if op.endswith('b') else b)

        def go(strict, how='given', verbose=False):
            pos = () if how != 'given' else (strict, verbose) if verbose else (strict,)
            kw = {'verbose': True} if verbose and how != 'given' else {}
            if how == 'by name':
                kw['strict'] = strict
            if op == 'read':
                return sg.gridio.read_mitgridfile(pa, ni, nj, *pos, **kw)
            if op == 'regrid':
                return sg.regrid.regrid(
                    *pos, mitgridfile=pa, ni=ni, nj=nj, lon1=XG[0, nj], lat1=YG[0, nj],
                    lon2=XG[ni, 0], lat2=YG[ni, 0], lon_subscale=1, lat_subscale=1, **kw)
            mod = sg.addfringe.addfringe if op.startswith('addfringe') else sg.stitch.stitch
            return mod(*pos, tilea=pa, nia=ni, nja=nj, tileb=pb, nib=ni, njb=nj, **kw)

        ch.state(ni, nj, op, pos, repr(value), strict, how, verbose)
        nonzero = pos is not None and not value == 0
        if strict and nonzero:
            ch.must_raise('{} with {} in the padding of {}'.format(op, value, ref.NAMES[pos[0]]),
                          (RuntimeError,), go, True, how, verbose)
            return
        got = ch.must(op, go, strict, how, verbose)
        ref.put(pa, a)
        ref.put(pb, b)
        clean = ch.must(op + ' without padding', go, False)
        ch.check(sg.snapshot(got) == sg.snapshot(clean), 'padding changed the result of {}', op)
    return run


def boundaries(ch):
    """getobcs reads two grid files."""
    ni = nj = 2
    op = ch.choose('file', ['parent', 'region'])
    pos = ch.choose('padding (field, i, j)', [None] + pads(ni, nj))
    value = ch.choose('value', [-2., np.nan]) if pos is not None else 0.
    strict, how = ch.choose('strict', [(False, 'left out'), (False, 'given'), (True, 'given'), (True, 'by name')])
    ch.commit()
    case = obcs.Case(ni, nj, ni, nj, times=(0,), depths=1)
    case.write_results(ch.tmp('run'), ('T', 'U', 'V'))
    files = {}
    for name, g in (('parent', case.parent), ('region', case.region)):
        data = ref.pack(g, ni, nj)
        if name == op and pos is not None:
            data = spoil(data, ni, nj, pos, value)
        files[name] = ref.put(ch.tmp(name), data)

    def go(res):
        return sg.getobcs.getobcs(
            *((strict,) if how == 'given' else ()), **({'strict': True} if how == 'by name' else {}),
            parent_mitgridfile=files['parent'], ni_parent=ni, nj_parent=nj,
            regional_mitgridfile=files['region'], ni_regional=ni, nj_regional=nj,
            parent_resultsdir=ch.tmp('run'), resultsdir=res)
    ch.state(op, pos, repr(value), strict, how)
    if strict and pos is not None:
        ch.must_raise('getobcs', (RuntimeError,), go, ch.tmp('res'))
        return
    ch.must('getobcs', go, ch.tmp('res'))
    P21.verify(ch, case, ch.tmp('res'), ('T', 'U', 'V'))


def double(ch):
    """Two terms (which may cancel)."""
    ni, nj = 2, 1
    p = pads(ni, nj)
    x = ch.choose('first', p)
    y = ch.choose('second', p)
    vx, vy = ch.choose('values', [(1., -1.), (np.nan, 1.), (np.inf, -np.inf), (0., 2.)])
    strict = ch.flag('strict')
    ch.commit()
    if x == y:
        raise engine.Skip()
    g = ref.labels(ni, nj)
    path = ref.put(ch.tmp('a.mitgrid'), spoil(spoil(ref.pack(g, ni, nj), ni, nj, x, vx), ni, nj, y, vy))
    ch.state(x, y, repr(vx), repr(vy))
    if strict:
        ch.must_raise('read', (RuntimeError,), sg.gridio.read_mitgridfile, path, ni, nj, True)
    else:
        back = ch.must('read', sg.gridio.read_mitgridfile, path, ni, nj, False)
        ch.check(all(ref.same(back[k], g[k]) for k in ref.NAMES), 'padding changed what is read')


def scenarios(tier):
    big = tier == 'thorough'
    sizes = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)] if big else [(1, 1), (2, 1), (1, 2)]
    large = [(40, 3), (3, 40), (130, 1), (1, 130), (33, 33)] + ([(300, 2), (2, 300), (64, 65)] if big else [])
    return [('one term', single(sizes, VALUES)), ('large grids', single(large, VALUES[:1], ends, OPS[:1])),
            ('large tiles', single([(12, 3)], VALUES[:1], ends, OPS[4:])), ('two terms', double), ('getobcs', boundaries)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P02', 'model_checking', scenarios,
        'every padding position of every field x values x entry point x strict and verbose, given or left out; the first, a middle '
        'and the last position of every field in large grids; all pairs of positions; both files getobcs reads',
        [], {'quick': 'sizes 1x1, 2x1, 1x2; five sizes of up to 130 cells a side', 'thorough': 'sizes up to 3x2, 2x3; eight sizes of up to 300 cells a side'}))
