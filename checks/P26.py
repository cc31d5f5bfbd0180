"""Cutting, refining and joining grids: the ways that should lead to the same grid do."""
import sys

import numpy as np

from mc import engine, ref, sg, tiles

GRIDS = [(-35., 20., 1.3), (178., -60., .02), (350., 40., 2.), (-179., 5., .4)]


class Maker:
    """Makes grids, on file, by calling functions or by running tools."""

    def __init__(self, ch, route):
        self.ch, self.route, self.n = ch, route, 0

    def path(self, ext=''):
        self.n += 1
        return self.ch.tmp('grid{}{}'.format(self.n, ext))

    def keep(self, what, got, counts):
        self.ch.check(isinstance(got, tuple) and len(got) == 3, '{} returned {}', what, type(got))
        self.ch.check(tuple(got[1:]) == counts, '{}: counts {}, not {}', what, got[1:], counts)
        f = self.path()
        self.ch.must('write_mitgridfile', sg.gridio.write_mitgridfile, f, got[0], *counts)
        return f

    def tool(self, module, args, counts):
        f = self.path()
        r = sg.run_main(self.ch, module, [str(a) for a in args] + ['--outfile', f])
        self.ch.check(r.exc is None or (isinstance(r.exc, SystemExit) and not r.exc.code),
                      '{} failed: {!r}', module.__name__, r)
        return f

    def mkgrid(self, lon1, lat1, lon2, lat2, si, sj):
        a = dict(lon1=lon1, lat1=lat1, lon2=lon2, lat2=lat2, lon_subscale=si, lat_subscale=sj)
        if self.route == 'tools':
            return self.tool(sg.mkgrid, options(a), (si, sj))
        return self.keep('mkgrid', self.ch.must('mkgrid', sg.mkgrid.mkgrid, **a), (si, sj))

    def regrid(self, f, ni, nj, box, si, sj):
        """The part box of the grid in file f, refined."""
        i0, i1, j0, j1 = box
        counts = (i1 - i0) * si, (j1 - j0) * sj
        g = self.read(f, ni, nj)
        a = dict(lon1=g['XG'][i0, j1], lat1=g['YG'][i0, j1], lon2=g['XG'][i1, j0], lat2=g['YG'][i1, j0],
                 lon_subscale=si, lat_subscale=sj)
        a = {k: v if isinstance(v, int) else float(v) for k, v in a.items()}
        if self.route == 'tools':
            return self.tool(sg.regrid, options(dict(a, mitgridfile=f, ni=ni, nj=nj)), counts)
        if self.route == 'matrices':
            return self.keep('regrid', self.ch.must('regrid', sg.regrid.regrid, mitgrid_matrices=g, **a), counts)
        if self.route == 'corners':
            x, y = self.path('x.csv'), self.path('y')
            np.savetxt(x, g['XG'], delimiter=',', fmt='%.17g')
            g['YG'].T.astype('>f8').tofile(y)
            return self.keep('regrid', self.ch.must('regrid', sg.regrid.regrid, xg_file=x, yg_file=y, ni=ni, nj=nj, **a),
                             counts)
        return self.keep('regrid', self.ch.must('regrid', sg.regrid.regrid, True, mitgridfile=f, ni=ni, nj=nj, **a), counts)

    def join(self, module, a, b):
        """a, b: (file, ni, nj)."""
        k = dict(tilea=a[0], nia=a[1], nja=a[2], tileb=b[0], nib=b[1], njb=b[2])
        what = module.__name__.rsplit('.', 1)[-1]
        if what == 'addfringe':
            counts = a[1:]
        else:
            counts = (a[1] + b[1], a[2]) if self.across else (a[1], a[2] + b[2])
        if self.route == 'tools':
            return self.tool(module, options(k), counts)
        got = self.ch.must(what, getattr(module, what), True, **k)
        if what == 'addfringe':
            got = (got[2],) + counts
        return self.keep(what, got, counts)

    def read(self, f, ni, nj):
        with open(f, 'rb') as h:
            data = h.read()
        want = 16 * (ni + 1) * (nj + 1) * 8
        self.ch.check(len(data) == want, 'file of a {} x {} grid has {} bytes, not {}', ni, nj, len(data), want)
        return ref.unpack(data, ni, nj)


def options(kw):
    return [x for k, v in kw.items() for x in ('--' + k, repr(v) if isinstance(v, float) else v)]


def parent_file(ch, ni, nj, lon0, lat0, size):
    XG, YG = ref.warped(ni, nj, lon0, lat0, size)
    return XG, YG, ref.put(ch.tmp('parent'), ref.pack(ref.full(XG, YG), ni, nj))


def refined(ch, grid, XG, YG, si, sj, what, names=ref.NAMES):
    """The grid XG, YG refined?"""
    bad = ref.compare(grid, ref.fill(ref.xyz(XG, YG), si, sj), names=names)
    ch.check(not bad, '{}: {}', what, '; '.join(bad))


def cut(sizes, grids, subs, routes):
    """Parts on both sides of a grid line, refined and joined, are the whole, refined."""
    def h(ch):
        ni, nj = ch.choose('cells', sizes)
        axis = ch.choose('cut across', [a for a in (0, 1) if (ni, nj)[a] > 1])
        at = ch.choose('at line', range(1, (ni, nj)[axis]))
        si, sj = ch.choose('lon_subscale', subs), ch.choose('lat_subscale', subs)
        first = ch.choose('tile a', ['lower', 'upper'])
        how = ch.choose('parts are refined', ['after the cut', 'before the cut'])
        use = ch.choose('put together by', ['stitch', 'addfringe'])
        route = ch.choose('route', routes)
        grid = ch.choose('grid', grids)
        ch.commit()
        XG, YG, f = parent_file(ch, ni, nj, *grid)
        m = Maker(ch, route)
        m.across = axis == 0
        whole = m.regrid(f, ni, nj, (0, ni, 0, nj), si, sj)
        NI, NJ = ni * si, nj * sj
        W = m.read(whole, NI, NJ)
        refined(ch, W, XG, YG, si, sj, 'whole grid')
        x = at * (si, sj)[axis]                                 # (the cut, in the refined grid)
        parts = []
        for part in ('lower', 'upper'):
            lo, hi = (0, at) if part == 'lower' else (at, (ni, nj)[axis])
            s = (si, sj)[axis]
            fine = (lo * s, hi * s, 0, NJ) if axis == 0 else (0, NI, lo * s, hi * s)
            coarse = (lo, hi, 0, nj) if axis == 0 else (0, ni, lo, hi)
            if how == 'after the cut':
                p = m.regrid(f, ni, nj, coarse, si, sj)
            else:
                p = m.regrid(whole, NI, NJ, fine, 1, 1)
            size = fine[1] - fine[0], fine[3] - fine[2]
            if how == 'after the cut':
                refined(ch, m.read(p, *size), *tiles.cut(XG, YG, coarse), si, sj, part + ' part')
            else:
                refined(ch, m.read(p, *size), *tiles.cut(W['XG'], W['YG'], fine), 1, 1, part + ' part')
            parts.append(((p,) + size, fine))
        if first == 'upper':
            parts.reverse()
        (a, boxa), (b, boxb) = parts
        c = m.join(getattr(sg, use), a, b)
        box = boxa if use == 'addfringe' else None
        got = m.read(c, *(a[1:] if box else (NI, NJ)))
        tiles.check_union(ch, got, W['XG'], W['YG'], [x] if axis == 0 else [], [x] if axis == 1 else [],
                          'joint:' + use, '{} of parts'.format(use), tile=box,
                          F=ref.fill(ref.xyz(XG, YG), si, sj) if how == 'after the cut' else None)
        ch.state(ni, nj, axis, at, si, sj, first, how, use, grid)
    return h


def quarters(sizes, grids, subs, routes):
    """Cut both ways; rows joined first, or columns."""
    def h(ch):
        ni, nj = ch.choose('cells', sizes)
        iat, jat = ch.choose('cut at i', range(1, ni)), ch.choose('cut at j', range(1, nj))
        si, sj = ch.choose('subscales', subs)
        first = ch.choose('joined first', ['rows', 'columns'])
        swap = ch.choose('tile a is the', ['lower', 'upper'])
        route = ch.choose('route', routes)
        grid = ch.choose('grid', grids)
        ch.commit()
        XG, YG, f = parent_file(ch, ni, nj, *grid)
        m = Maker(ch, route)
        NI, NJ = ni * si, nj * sj
        W = m.read(m.regrid(f, ni, nj, (0, ni, 0, nj), si, sj), NI, NJ)
        ib, jb = [0, iat, ni], [0, jat, nj]
        part = {}
        for i in (0, 1):
            for j in (0, 1):
                box = ib[i], ib[i + 1], jb[j], jb[j + 1]
                part[i, j] = (m.regrid(f, ni, nj, box, si, sj), (box[1] - box[0]) * si, (box[3] - box[2]) * sj)

        def pair(lo, hi, across):
            m.across = across
            a, b = (lo, hi) if swap == 'lower' else (hi, lo)
            c = m.join(sg.stitch, a, b)
            return (c, lo[1] + hi[1], lo[2]) if across else (c, lo[1], lo[2] + hi[2])

        if first == 'rows':
            c = pair(pair(part[0, 0], part[1, 0], True), pair(part[0, 1], part[1, 1], True), False)
        else:
            c = pair(pair(part[0, 0], part[0, 1], False), pair(part[1, 0], part[1, 1], False), True)
        tiles.check_union(ch, m.read(*c), W['XG'], W['YG'], [iat * si], [jat * sj], 'joint:quarters', 'quarters joined',
                          F=ref.fill(ref.xyz(XG, YG), si, sj))
        ch.state(ni, nj, iat, jat, si, sj, first, swap, grid)
    return h


def chains(sizes, grids, top, routes, steps):
    """Refining step by step, and at once; lengths and areas of the parts add up."""
    def h(ch):
        ni, nj = ch.choose('cells', sizes)
        s = []
        for n in range(steps):
            a = ch.choose('lon_subscale {}'.format(n + 1), range(1, top + 1))
            # (sides along j are divided after those along i; a grid refined along j has other lines along i)
            b = ch.choose('lat_subscale {}'.format(n + 1), range(1, top + 1))
            s.append((a, b))
        for n in range(1, steps):
            if s[n][0] > 1 and any(t[1] > 1 for t in s[:n]):
                raise engine.Skip()
        route = ch.choose('route', routes)
        start = ch.choose('start from', ['file', 'mkgrid'])
        grid = ch.choose('grid', grids)
        if start == 'mkgrid' and nj > 1 and any(t[0] > 1 for t in s):
            raise engine.Skip()
        ch.commit()
        m = Maker(ch, route)
        if start == 'file':
            XG, YG, f = parent_file(ch, ni, nj, *grid)
        else:
            lon0, lat0, size = grid
            ends = lon0, lat0 + size * nj, lon0 + size * ni, lat0
            f = m.mkgrid(*ends, ni, nj)
            g = m.read(f, ni, nj)
            XG, YG = g['XG'], g['YG']
        NI, NJ = ni, nj
        c = f
        fine = {'XG': XG, 'YG': YG}
        for a, b in s:
            c = m.regrid(c, NI, NJ, (0, NI, 0, NJ), a, b)
            NI, NJ = NI * a, NJ * b
            x, y, fine = fine['XG'], fine['YG'], m.read(c, NI, NJ)
            refined(ch, fine, x, y, a, b, 'step {} of {}'.format((a, b), s))
        # (the points at half the spacing, and with them other terms, depend on the steps a little)
        refined(ch, fine, XG, YG, NI // ni, NJ // nj, 'refined in steps {}'.format(s), ('XG', 'YG', 'DXG', 'DYG'))
        if start == 'mkgrid':
            once = m.read(m.mkgrid(*ends, NI, NJ), NI, NJ)
            what = 'made by mkgrid'
        else:
            once = m.read(m.regrid(f, ni, nj, (0, ni, 0, nj), NI // ni, NJ // nj), NI, NJ)
            what = 'refined at once'
        d = ref.posdiff(once['XG'], once['YG'], ref.xyz(fine['XG'], fine['YG']))
        ch.check(d < ref.POS_TOL, 'corner points of the grid {} are off by {:.3g} degrees', what, np.degrees(d))
        F = ref.fill(ref.xyz(XG, YG), NI // ni, NJ // nj)
        refined(ch, once, XG, YG, NI // ni, NJ // nj, what,
                ref.NAMES if start == 'file' else ('XG', 'YG', 'DXG', 'DYG'))
        coarse = ref.fill(ref.xyz(XG, YG), 1, 1)
        w, tol = ref.fields(coarse)
        _, ft = ref.fields(F)
        p, q = NI // ni, NJ // nj
        sums = {'DXG': fine['DXG'][:, ::q].reshape(ni, p, nj + 1).sum(1),
                'DYG': fine['DYG'][::p].reshape(ni + 1, nj, q).sum(2),
                'RAC': fine['RAC'].reshape(ni, p, nj, q).sum((1, 3))}
        for k, v in sums.items():
            t = tol[k] + ft[k].max() * (p * q)
            ch.check(np.all(np.abs(v - w[k]) <= t), '{} of the parts of a cell add up to {}, not {}', k,
                     v.tolist(), w[k].tolist())
        ch.state(ni, nj, s, start, grid)
    return h


def scenarios(tier):
    routes = ['file', 'matrices', 'corners', 'tools']
    if tier == 'thorough':
        return [('cut and join', cut([(2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 1)], GRIDS, [1, 2, 3], routes)),
                ('large', cut([(9, 2), (2, 9)], GRIDS[:1], [1, 5], ['file', 'tools'])),
                ('quarters', quarters([(2, 2), (3, 2), (2, 3)], GRIDS, [(1, 1), (2, 1), (1, 2), (2, 3)], routes)),
                ('steps', chains([(1, 1), (2, 1), (1, 2), (3, 2)], GRIDS, 3, routes, 2)),
                ('three steps', chains([(1, 1), (2, 1)], GRIDS[:2], 2, ['file', 'tools'], 3))]
    return [('cut and join', cut([(2, 1), (1, 2), (3, 2)], GRIDS[:3], [1, 2], routes)),
            ('large', cut([(7, 1), (1, 7)], GRIDS[:1], [4], ['tools'])),
            ('quarters', quarters([(2, 2)], GRIDS[:2], [(1, 1), (2, 1), (1, 3)], ['file', 'tools'])),
            ('steps', chains([(1, 1), (2, 1), (1, 2)], GRIDS[:3], 3, ['file', 'tools'], 2))]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P26', 'model_checking', scenarios,
        'all cuts of a grid along its lines, subscales, orders of joining; all sequences of refinements; '
        'by functions (three sources of the parent) and by tools',
        ['terms whose line or cell crosses a joint may be left zero (known finding, see P13)'],
        {'quick': 'grids up to 3 x 2 (7 x 1), subscales up to 2 (4); two refinements of up to 3 x 3',
         'thorough': 'grids up to 3 x 3 (9 x 2), subscales up to 3 (5); up to three refinements'}))
