"""getobcs: every boundary file holds the results of the right cells, depths and times."""
import itertools
import os
import sys

import numpy as np

from checks.P08 import globe
from mc import engine, mdsref, obcs, ref, sg

KEY = {'N': 'OB_Jnorth', 'S': 'OB_Jsouth', 'E': 'OB_Ieast', 'W': 'OB_Iwest'}


def run(ch, case, res, how=None, **kw):
    args = dict(parent_mitgrid_matrices=case.parent, regional_mitgrid_matrices=case.region,
                parent_resultsdir=ch.tmp('run'), resultsdir=res)
    args.update(kw)
    args = {k: v for k, v in args.items() if v is not None}
    return ch.must('getobcs', sg.getobcs.getobcs, *(how or ()), **args)


def verify(ch, case, res, fields, vectors=None, expanded=False, prec='float64', others=()):
    """Exactly the files asked for, each with the values of the reference."""
    vectors = vectors or {}
    have = {f for f in os.listdir(res) if not f.endswith('.nc')} - set(others)
    want = {}
    for f in fields:
        for side in 'NSEW':
            w = case.expected(f, side, vectors.get(side), expanded, prec)
            if w is not None:
                want['OB' + side + f.lower()] = w, np.atleast_1d(vectors.get(side, 1)) != 0
    ch.check(have == set(want), 'boundary files missing {}, unexpected {}', sorted(set(want) - have), sorted(have - set(want)))
    for name, (w, used) in want.items():
        got = np.fromfile(os.path.join(res, name), '>f8')
        ch.check(got.size == w.size, '{}: {} numbers, should be {}', name, got.size, w.size)
        got = got.reshape(w.shape, order='F')
        if used.size == len(w):                     # no boundary there: any value will do
            got, w = got[used], w[used]
        ch.check(np.allclose(got, w, rtol=1e-9, atol=1e-9), '{}: {} should be {}', name, got.tolist(), w.tolist())


def vectors(sizes, more):
    """All index vectors of one side, the others at their defaults or off."""
    def h(ch):
        ni, nj = ch.choose('region', sizes)
        side = ch.choose('side', 'NSEW')
        n, across = (ni, nj) if side in 'NS' else (nj, ni)
        vals = list(range(-across, 0)) + list(range(0, across + 1))
        vec = [ch.choose('index {}'.format(k + 1), vals) for k in range(n)]
        rest = ch.choose('other sides', ['default', 'off'] if more else ['off'])
        ch.commit()
        case = obcs.Case(3, 3, ni, nj, times=(0, 10), depths=2)
        case.write_results(ch.tmp('run'), ('T', 'U', 'V'))
        kind = sum(abs(v) for v in vec) % 3         # as a list, tuple or array
        v = [list, tuple, np.array][kind](vec)
        before = repr(v)
        vecs = {s: [0] for s in 'NSEW' if rest == 'off'}
        vecs[side] = v
        run(ch, case, ch.tmp('res'), **{KEY[s]: x for s, x in vecs.items()})
        verify(ch, case, ch.tmp('res'), ('T', 'U', 'V'), vecs)
        ch.check(repr(v) == before, 'the index vector was changed')
        ch.state(ni, nj, side, vec, rest)
    return h


def sides(ch):
    """Every combination of sides at the default, given, or off."""
    ni, nj = ch.choose('region', [(2, 3), (3, 1)])
    opts = []
    for s in 'NSEW':
        n, across = (ni, nj) if s in 'NS' else (nj, ni)
        opts.append(ch.choose(s, [None, [-1] * n, [1] * n, [0], [0] * n]))
    ch.commit()
    case = obcs.Case(2, 3, ni, nj, times=(0,), depths=1)
    case.write_results(ch.tmp('run'), ('T', 'U', 'V'))
    vecs = {s: v for s, v in zip('NSEW', opts) if v is not None}
    run(ch, case, ch.tmp('res'), **{KEY[s]: v for s, v in vecs.items()})
    verify(ch, case, ch.tmp('res'), ('T', 'U', 'V'), vecs)
    ch.state(ni, nj, opts)


def fields(depths):
    """All subsets of the results there can be, times and depths."""
    def h(ch):
        some = [f for f in obcs.FIELDS if f == 'T' or ch.flag(f)]
        nz = ch.choose('depths', depths)
        times = ch.choose('times', [(0,), (0, 72), (5, 1000000, 10)])
        ch.commit()
        case = obcs.Case(2, 3, 3, 2, times=sorted(times), depths=nz)
        case.write_results(ch.tmp('run'), some)
        run(ch, case, ch.tmp('res'))
        verify(ch, case, ch.tmp('res'), some)
        ch.state(some, nz, times)
    return h


def files(ch):
    """Tiles, precisions, velocities with the extra point; and other files in the directory."""
    nip, njp = ch.choose('parent', [(4, 2), (2, 4), (1, 2)])
    tiles = ch.choose('tiles', [None] + [(a, b) for a in (1, 2, 4) for b in (1, 2, 4) if nip % a == 0 and njp % b == 0])
    prec = ch.choose('precision', ['float64', 'float32'])
    expanded = ch.flag('extra velocity point') if not tiles else False
    nz = ch.choose('depths', [1, 3])
    others = ch.flag('other files')
    ch.commit()
    case = obcs.Case(nip, njp, 2, 2, times=(0, 36, 72), depths=nz)
    names = ('T', 'U', 'V', 'Eta', 'VICE')
    case.write_results(ch.tmp('run'), names, tiles=tiles, prec=prec, expanded=expanded)
    if others:
        for f in ('PTRACER01.0000000099', 'Tx.0000000098', 'dynDiag.0000000000', 'XC', 'pickup.ckptA', 'Depth'):
            mdsref.write(ch.tmp('run/' + f), mdsref.values(1, (2, 2)))
    before = ref.listing(ch.tmp('run'))
    run(ch, case, ch.tmp('res'))
    verify(ch, case, ch.tmp('res'), names, expanded=expanded, prec=prec)
    ch.check(ref.listing(ch.tmp('run')) == before, 'the parent results were changed')
    ch.state(nip, njp, tiles, prec, expanded, nz, others)


def levels(ch):
    """Fields with numbers of levels of their own (e.g., at the interfaces of layers)."""
    n = {f: ch.choose('levels of ' + f, [1, 2, 3]) for f in ('T', 'S', 'W', 'U', 'V')}
    ch.commit()
    case = obcs.Case(2, 2, 2, 2, times=(0, 10), levels=n)
    case.write_results(ch.tmp('run'), n)
    run(ch, case, ch.tmp('res'))
    verify(ch, case, ch.tmp('res'), n)
    ch.state(n)


def large(shapes):
    """Larger regions, more depths and times, with indices all over the place."""
    def h(ch):
        nip, njp, ni, nj, nz, nt = ch.choose('parent, region, depths, times', shapes)
        how = ch.choose('indices', ['default', 'rising', 'falling', 'from the far side', 'alternating', 'ends only', 'one off'])
        prec = ch.choose('precision', ['float64', 'float32'])
        some = ch.choose('fields', [('T', 'U', 'V'), obcs.FIELDS])
        ch.commit()
        case = obcs.Case(nip, njp, ni, nj, times=tuple(9 * t for t in range(nt)), depths=nz)
        case.write_results(ch.tmp('run'), some, prec=prec)
        vecs = {}
        for s in 'NSEW':
            n, m = (ni, nj) if s in 'NS' else (nj, ni)
            v = [k % (m - 1) + 1 for k in range(n)]
            vecs[s] = {'default': None, 'rising': v, 'falling': v[::-1], 'from the far side': [-k for k in v],
                       'alternating': [k if j % 2 else -k for j, k in enumerate(v)],
                       'ends only': [1] + [0] * (n - 2) + [m - 1], 'one off': v[:-2] + [0] + v[-1:]}[how]
        vecs = {s: v for s, v in vecs.items() if v is not None}
        run(ch, case, ch.tmp('res'), **{KEY[s]: v for s, v in vecs.items()})
        verify(ch, case, ch.tmp('res'), some, vecs, prec=prec)
        ch.state(nip, njp, ni, nj, nz, nt, how, prec, some)
    return h


def places(shifts):
    """Grids anywhere, of any proportion; given as files or matrices; results directory in every form."""
    def h(ch):
        shift = ch.choose('longitude', shifts)
        nip, njp, ni, nj = ch.choose('sizes', [(2, 2, 1, 1), (1, 1, 2, 3), (3, 2, 3, 2), (2, 4, 4, 2)])
        psrc = ch.choose('parent', ['matrices', 'file'])
        rsrc = ch.choose('region', ['matrices', 'file'])
        res = ch.choose('resultsdir', ['default', 'new', 'nested', 'exists', 'default, slash'])
        flags = ch.choose('strict, verbose', [(), (True, True)])
        ch.commit()
        case = obcs.Case(nip, njp, ni, nj, times=(0, 1), depths=1, shift=shift)
        case.write_results(ch.tmp('run'), ('T', 'U', 'V'))
        kw = {}
        if psrc == 'file':
            kw.update(parent_mitgrid_matrices=None, ni_parent=nip, nj_parent=njp, parent_mitgridfile=ref.put(
                ch.tmp('p.mitgrid'), ref.pack(case.parent, nip, njp)))
        if rsrc == 'file':
            kw.update(regional_mitgrid_matrices=None, ni_regional=ni, nj_regional=nj, regional_mitgridfile=ref.put(
                ch.tmp('r.mitgrid'), ref.pack(case.region, ni, nj)))
        if 'slash' in res:
            kw['parent_resultsdir'] = ch.tmp('run') + '/'
        where = {'new': ch.tmp('res'), 'nested': ch.tmp('res') + '/a/b', 'exists': ch.tmp('res')}.get(res)
        if res == 'exists':
            os.mkdir(where)
            ref.put(where + '/other', b'keep')
            ref.put(where + '/OBNt', b'previous' * 1000)
        run(ch, case, where, flags, **kw)
        where = where or ch.tmp('run_obcs')
        verify(ch, case, where, ('T', 'U', 'V'), others=['other'])
        if res == 'exists':
            ch.check(open(where + '/other', 'rb').read() == b'keep', 'another file was changed')
        ch.state(shift, nip, njp, ni, nj, psrc, rsrc, res)
    return h


def around(ch):
    """Parents, and regions (channels), that go all the way around the globe, with or without poles."""
    which = ch.choose('all around', ['parent', 'region', 'both'])
    sizes = ch.choose('sizes', [(3, 1, 4, 2), (4, 3, 3, 1), (5, 2, 3, 3)])
    west = ch.choose('west', [-180., 0., 20.])
    poles = ch.choose('poles of the parent', [(False, False), (False, True), (True, True)])
    form = ch.choose('as', ['matrices', 'files'])
    ch.commit()
    case = obcs.Case(*sizes, times=(0, 10), depths=2)
    if which == 'region' and any(poles) or all(poles) and sizes[1] == 1:
        raise engine.Skip()
    if which != 'region':
        case.pg = globe(sizes[0], sizes[1], west, poles, (65., -70.))
        case.parent = ref.full(*case.pg)
    if which != 'parent':
        case.rg = globe(sizes[2], sizes[3], west, (False, False), (-35., -62.))
        case.region = ref.full(*case.rg)
    case.write_results(ch.tmp('run'), ('T', 'U', 'V'))
    kw = {}
    if form == 'files':
        for n, g, (ni, nj) in (('parent', case.parent, sizes[:2]), ('regional', case.region, sizes[2:])):
            kw.update({n + '_mitgrid_matrices': None, 'ni_' + n: ni, 'nj_' + n: nj,
                       n + '_mitgridfile': ref.put(ch.tmp(n), ref.pack(g, ni, nj))})
    run(ch, case, ch.tmp('res'), **kw)
    verify(ch, case, ch.tmp('res'), ('T', 'U', 'V'))
    ch.state(which, sizes, west, poles, form)


def regridded(ch):
    """Regions made from the parent with regrid (README): at any refinement, from either end."""
    nip, njp = ch.choose('parent', [(2, 2), (3, 2)])
    sub = ch.choose('subscales', [(1, 1), (2, 2), (1, 3)])
    quarter = ch.choose('quarter turns', [0, 1, 2, 3])
    ch.commit()
    case = obcs.Case(nip, njp, 1, 1, times=(0, 10), depths=2)
    case.write_results(ch.tmp('run'), ('T', 'U', 'V'))
    XG, YG = case.pg
    corners = [(0, -1), (0, 0), (-1, 0), (-1, -1)]
    a, b = corners[quarter], corners[(quarter + 2) % 4]
    reg, ni, nj = ch.must('regrid', sg.regrid.regrid, mitgrid_matrices=case.parent, lon1=XG[a], lat1=YG[a],
                          lon2=XG[b], lat2=YG[b], lon_subscale=sub[0], lat_subscale=sub[1])
    case.ni, case.nj, case.region, case.rg = ni, nj, reg, (reg['XG'], reg['YG'])
    run(ch, case, ch.tmp('res'))
    verify(ch, case, ch.tmp('res'), ('T', 'U', 'V'))
    ch.state(nip, njp, sub, quarter)


def refused(ch):
    """Requests that can't be met raise, and write no boundary files."""
    what = ch.choose('what', ['no results directory', 'no parent', 'no region', 'ni_parent missing', 'nj_parent missing',
                              'ni_regional missing', 'nj_regional missing', 'no parent file', 'no region file',
                              'vector', 'no results', 'dirty parent', 'dirty region', 'short parent', 'short region',
                              'iteration missing', 'results of another grid'])
    side = ch.choose('side', 'NSEW') if what == 'vector' else None
    vec = ch.choose('vector', ['long', 'short', 'single', 'too far', 'too far back', 'one too far', 'one too far back']) \
        if side else None
    ni, nj = ch.choose('region', [(4, 3), (1, 3), (4, 1), (1, 1), (2, 2)]) if side else (4, 3)
    ch.commit()
    n, across = (ni, nj) if side in ('N', 'S') else (nj, ni)
    if n == 1 and vec in ('short', 'single'):
        raise engine.Skip()
    case = obcs.Case(2, 2, ni, nj, times=(0, 10), depths=2)
    case.write_results(ch.tmp('run'), ('T', 'S', 'U', 'V'))
    kw = dict(parent_mitgridfile=ref.put(ch.tmp('p'), ref.pack(case.parent, 2, 2, 1. if what == 'dirty parent' else 0.)),
              ni_parent=2, nj_parent=2, ni_regional=ni, nj_regional=nj,
              regional_mitgridfile=ref.put(ch.tmp('r'), ref.pack(case.region, ni, nj, 1. if what == 'dirty region' else 0.)),
              parent_resultsdir=ch.tmp('run'), resultsdir=ch.tmp('res'))
    drop = {'no results directory': 'parent_resultsdir', 'no parent': 'parent_mitgridfile', 'no region': 'regional_mitgridfile'}
    if what in drop:
        kw.pop(drop[what])
    elif what.endswith('missing') and what[:2] in ('ni', 'nj'):
        kw.pop(what.split()[0])
    elif what.startswith('no ') and what.endswith('file'):
        os.unlink(ch.tmp('p' if 'parent' in what else 'r'))
    elif what.startswith('short'):
        f = ch.tmp('p' if 'parent' in what else 'r')
        os.truncate(f, os.path.getsize(f) - 8)
    elif what == 'no results':
        kw['parent_resultsdir'] = ch.tmp('empty')
        os.mkdir(ch.tmp('empty'))
    elif what == 'iteration missing':
        os.unlink(ch.tmp('run/T.0000000010.meta'))
    elif what == 'results of another grid':
        obcs.Case(3, 2, 2, 2, times=(0, 10), depths=2).write_results(ch.tmp('run'), ('T', 'S', 'U', 'V'))
    elif what == 'vector':
        kw[KEY[side]] = {'long': [1] * (n + 1), 'short': [1] * (n - 1), 'single': [2], 'too far': [across + 1] * n,
                         'too far back': [-across - 1] * n, 'one too far': [1] * (n - 1) + [across + 1],
                         'one too far back': [1] * (n - 1) + [-across - 2]}[vec]
    o = ch.call(sg.getobcs.getobcs, 'dirty' in what, **kw)
    ch.check(not o.ok, '{} {}: getobcs {}', what, vec or '', o)
    if what in drop or 'missing' in what and what[0] == 'n' or what == 'vector':
        ch.check(o.raised(ValueError), '{}: getobcs {}, ValueError expected', what, o)
    left = [f for f in os.listdir(ch.tmp('res')) if f.startswith('OB')] if os.path.isdir(ch.tmp('res')) else []
    ch.check(not left, '{}: getobcs {}, but has written {}', what, o, left)
    ch.state(what, side, vec, ni, nj)


def no_parent(ch):
    """No parent grid but what the results directory has: the right boundaries, or none."""
    have = [n for n in ('XG', 'YG', 'XC', 'YC', 'RAC') if ch.flag(n)]
    extra = ch.flag('with the extra points')
    sizes = ch.choose('sizes', [(2, 2, 2, 1), (1, 3, 2, 2)])
    flags = ch.choose('strict, verbose', [(), (True, True)])
    ch.commit()
    case = obcs.Case(*sizes, times=(0, 10), depths=2)
    case.write_results(ch.tmp('run'), ('T', 'U', 'V'))
    for n in have:
        a = case.parent[n] if extra else case.parent[n][:sizes[0], :sizes[1]]
        mdsref.write(ch.tmp('run/' + n), a.T[None])
    before = ref.listing(ch.tmp('run'))
    o = ch.call(sg.getobcs.getobcs, *flags, parent_resultsdir=ch.tmp('run'), regional_mitgrid_matrices=case.region,
                resultsdir=ch.tmp('res'))
    ch.state(have, extra, sizes, flags)
    ch.check(ref.listing(ch.tmp('run')) == before, 'the parent results were changed')
    if 'XG' not in have or 'YG' not in have:
        ch.check(o.raised(ValueError), 'parent grid without {}: getobcs {}, ValueError expected',
                 [n for n in ('XG', 'YG') if n not in have], o)
    if o.ok:
        verify(ch, case, ch.tmp('res'), ('T', 'U', 'V'))
    else:
        left = [f for f in os.listdir(ch.tmp('res')) if f.startswith('OB')] if os.path.isdir(ch.tmp('res')) else []
        ch.check(not left, 'getobcs {}, but has written {}', o, left)


def scenarios(tier):
    if tier == 'thorough':
        return [('index vectors', vectors([(2, 3), (3, 2), (1, 3), (3, 3)], True)), ('sides', sides), ('fields', fields([1, 2, 3])),
                ('files', files), ('levels', levels), ('places', places([0., 217., 40., 320., -320., 500.])), ('from regrid', regridded), ('around', around),
                ('large', large([(7, 9, 12, 5, 2, 2), (3, 3, 5, 4, 50, 1), (4, 3, 3, 5, 1, 30), (12, 11, 9, 13, 23, 11), (2, 2, 40, 3, 1, 1), (2, 2, 3, 40, 1, 2)])),
                ('no parent grid', no_parent), ('refused', refused)]
    return [('index vectors', vectors([(2, 3), (3, 2)], False)), ('sides', sides), ('fields', fields([2])),
            ('files', files), ('levels', levels), ('places', places([0., 217., 40.])), ('from regrid', regridded), ('around', around),
            ('large', large([(7, 9, 12, 5, 2, 2), (2, 3, 3, 11, 50, 1), (3, 2, 3, 4, 1, 12)])),
            ('no parent grid', no_parent), ('refused', refused)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P21', 'model_checking', scenarios,
        'all index vectors of each side; all combinations of sides; all subsets of results x times x depths; tilings x '
        'precisions; places x sizes x sources x directories; requests that cannot be met',
        ['xESMF (not installed) is replaced by a stand-in with dense position dependent weights',
         'values at points whose index is zero (no boundary there) are not specified'],
        {'quick': 'regions up to 3 x 2; 12 x 5, 3 x 11 (50 depths), 3 x 4 (12 times)', 'thorough': 'regions up to 3 x 3, both settings of the other sides; up to 40 x 3, 9 x 13, 50 depths, 30 times'}))
