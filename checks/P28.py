"""Every request is answered in the end, and one that makes no sense is refused."""
import os
import sys

import numpy as np

from checks import P16
from checks.P08 import globe, parent_of
from mc import engine, mdsref, obcs, ref, sg, tiles

NAN, INF = float('nan'), float('inf')
LONS = [None, NAN, INF, -INF, 'west', [1., 2.]]
LATS = LONS + [90.1, -90.1, 95., -1e300, 180.]
COUNTS = [None, 0, -1, -2, -3, -4, -5, 1.5, NAN, INF, 'two', [2]]
LARGE = [50, 10 ** 6]
FILES = ['missing', 'empty', 'a directory', 'no directory', 'cut off', 'odd bytes', None]
TABLES = FILES[:4] + ['a row less', 'a row more', 'a column less', 'a column more', 'a short row', 'a long row', 'a word',
                      'an empty entry', 'an empty last entry', 'other delimiters', 'binary', None]
VECTORS = [[NAN], [1.5], 'north', [[1], [1]], [99], [-99]]


def bad_file(ch, how, good=None):
    """A path with something wrong with it."""
    if how is None:
        return None
    ext = os.path.splitext(good or '')[1] if how in TABLES else ''
    path = ch.tmp('bad' + ext)
    if how == 'a directory':
        os.mkdir(path)
    elif how == 'no directory':
        path = ch.tmp('no/bad' + ext)
    elif how == 'empty':
        ref.put(path, b'')
    elif how == 'cut off':
        data = open(good, 'rb').read()
        ref.put(path, data[:len(data) - 8])
    elif how == 'odd bytes':
        ref.put(path, b'seven ch' * 5 + b'ars')
    elif ext == '.csv' and how != 'missing':
        t = [line.split(',') for line in open(good).read().split()]
        if how == 'binary':
            ref.put(path, np.array(t, '>f8').tobytes())
            return path
        if 'column' in how:
            t = [r[:-1] if 'less' in how else r + r[-1:] for r in t]
        elif how.startswith('a row'):
            t = t[:-1] if 'less' in how else t + t[-1:]
        elif how.endswith('row'):
            t[1] = t[1][:-1] if 'short' in how else t[1] + t[1][-1:]
        elif how.endswith('entry'):
            t[1][-1 if 'last' in how else 0] = ''
        elif how == 'a word':
            t[1][1] = 'word'
        ref.put(path, ''.join((';' if 'other' in how else ',').join(r) + '\n' for r in t).encode())
    return path


class Request:
    """Arguments of an operation that can be met; fn(**args) meets it."""

    def __init__(self, fn, args, main=None):
        self.fn, self.args, self.main = fn, args, main


def mkgrid(ch):
    return Request(sg.mkgrid.mkgrid, dict(lon1=10., lat1=40., lon2=20., lat2=30., lon_subscale=3, lat_subscale=2),
                   sg.mkgrid)


def regrid(ch, source):
    XG, YG = ref.warped(3, 2)
    g = ref.full(XG, YG)
    kw = dict(lon1=float(XG[0, -1]), lat1=float(YG[0, -1]), lon2=float(XG[-1, 0]), lat2=float(YG[-1, 0]),
              lon_subscale=1, lat_subscale=2)
    if source == 'matrices':
        kw['mitgrid_matrices'] = g
    else:
        kw.update(ni=3, nj=2)
        if source == 'mitgridfile':
            kw['mitgridfile'] = tiles.save(ch.tmp('p.mitgrid'), g, 3, 2)
        else:
            for n, v in (('xg', XG), ('yg', YG)):
                if source == 'csv':
                    text = ''.join(','.join(map(repr, map(float, r))) + '\n' for r in v)
                    kw[n + '_file'] = ref.put(ch.tmp(n + '.csv'), text.encode())
                else:
                    kw[n + '_file'] = ref.put(ch.tmp(n), np.ascontiguousarray(v.T).astype('>f8').tobytes())
    return Request(sg.regrid.regrid, kw, None if source == 'matrices' else sg.regrid)


def join(ch, module, nib=1):
    boxa, boxb, (ni, nj) = tiles.neighbours('E', 2, nib, 3)
    XG, YG = ref.warped(ni, nj)
    A, B = [ref.full(*tiles.cut(XG, YG, b)) for b in (boxa, boxb)]
    return Request(getattr(module, module.__name__.rsplit('.', 1)[-1]),
                   dict(tilea=tiles.save(ch.tmp('a'), A, 2, 3), nia=2, nja=3, tileb=tiles.save(ch.tmp('b'), B, nib, 3),
                        nib=nib, njb=3), module)


def read(ch):
    f = tiles.save(ch.tmp('p.mitgrid'), ref.full(*ref.warped(3, 2)), 3, 2)
    return Request(sg.gridio.read_mitgridfile, dict(filename=f, ni=3, nj=2))


def boundaries(ch):
    case = obcs.Case(2, 2, 3, 2, times=(0, 10), depths=2)
    case.write_results(ch.tmp('run'), ('T', 'U', 'V'))
    return Request(sg.getobcs.getobcs, dict(
        parent_mitgridfile=tiles.save(ch.tmp('p'), case.parent, 2, 2), ni_parent=2, nj_parent=2, ni_regional=3, nj_regional=2,
        regional_mitgridfile=tiles.save(ch.tmp('r'), case.region, 3, 2), parent_resultsdir=ch.tmp('run'),
        OB_Jnorth=[2, 2, 2], OB_Jsouth=[1, 1, 1], OB_Ieast=[3, 3], OB_Iwest=[1, 1]), sg.getobcs)


def convert(ch):
    g = ref.full(*ref.warped(3, 2))
    os.mkdir(ch.tmp('run'))
    for n in ('XC', 'YC', 'XG', 'YG'):
        mdsref.write(ch.tmp('run/' + n), g[n][:3, :2].T[None])
    return Request(sg.mds2mitgrid.mds2mitgrid, dict(parent_resultsdir=ch.tmp('run')))


OPERATIONS = {
    'mkgrid': mkgrid, 'regrid (mitgridfile)': lambda ch: regrid(ch, 'mitgridfile'),
    'regrid (matrices)': lambda ch: regrid(ch, 'matrices'), 'regrid (xg, yg)': lambda ch: regrid(ch, 'xg, yg'),
    'regrid (csv)': lambda ch: regrid(ch, 'csv'), 'stitch': lambda ch: join(ch, sg.stitch),
    'addfringe': lambda ch: join(ch, sg.addfringe), 'stitch (like tiles)': lambda ch: join(ch, sg.stitch, 2),
    'addfringe (like tiles)': lambda ch: join(ch, sg.addfringe, 2), 'read': read,
    'getobcs': boundaries}

ARGUMENTS = {op: names.split() for op, names in {
    'mkgrid': 'lon1 lat1 lon2 lat2 lon_subscale lat_subscale',
    'regrid (mitgridfile)': 'lon1 lat1 lon2 lat2 lon_subscale lat_subscale ni nj mitgridfile',
    'regrid (matrices)': 'lon1 lat1 lon2 lat2 lon_subscale lat_subscale mitgrid_matrices',
    'regrid (xg, yg)': 'lon1 lat1 lon2 lat2 lon_subscale lat_subscale ni nj xg_file yg_file',
    'regrid (csv)': 'lon1 lat1 lon2 lat2 lon_subscale lat_subscale ni nj xg_file yg_file',
    'stitch': 'nia nja nib njb tilea tileb', 'addfringe': 'nia nja nib njb tilea tileb',
    'stitch (like tiles)': 'nia nja nib njb tilea tileb', 'addfringe (like tiles)': 'nia nja nib njb tilea tileb', 'read': 'ni nj filename',
    'getobcs': 'parent_mitgridfile ni_parent nj_parent regional_mitgridfile ni_regional nj_regional parent_resultsdir '
               'OB_Jnorth OB_Jsouth OB_Ieast OB_Iwest'}.items()}


def pool(op, arg):
    """Values that make no sense for an argument."""
    if arg.startswith('lon') and 'scale' not in arg:
        return LONS
    if arg.startswith('lat') and 'scale' not in arg:
        return LATS
    if 'subscale' in arg:
        return COUNTS
    if arg.startswith('n'):
        return COUNTS + LARGE
    if arg.startswith('OB_'):
        return VECTORS
    if arg == 'mitgrid_matrices':
        return ['{}', None]
    if arg == 'parent_resultsdir':
        return ['missing', 'empty', None]
    return TABLES if 'csv' in op else FILES


def spoil(ch, req, arg, value):
    """The request with one argument replaced."""
    kind = ('lon', 'lat', 'n', 'OB_')
    if arg == 'mitgrid_matrices':
        value = {} if value == '{}' else value
    elif not arg.startswith(kind):
        value = bad_file(ch, value, req.args[arg] if os.path.isfile(req.args[arg]) else None)
    req.args[arg] = value


def refused(ch, req, what, call):
    before = ref.listing(ch.scratch)
    o = call()
    after = ref.listing(ch.scratch)
    ch.check(P16.failed(o) if isinstance(o.exc, SystemExit) else not o.ok, '{}: {}', what, o)
    ch.check({k: v for k, v in after.items() if not k.endswith('.nc')} == before, '{}: refused, but files were changed: {}', what,
             sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k)))


def functions(ops, both):
    """An argument (or two) that makes no sense."""
    def h(ch):
        op = ch.choose('operation', ops)
        names = ARGUMENTS[op]
        first = ch.choose('argument', names)
        v = ch.choose('is', pool(op, first))
        second = ch.choose('and', names[names.index(first) + 1:]) if both else None
        w = ch.choose('is ', [x for x in pool(op, second) if x not in FILES + TABLES or v not in FILES + TABLES or x is None]) if both else None
        flags = ch.choose('strict, verbose', [False, True] if not both else [False])
        ch.commit()
        req = OPERATIONS[op](ch)
        ch.must('the request as it should be', req.fn, **req.args) if op != 'getobcs' else None
        spoil(ch, req, first, v)
        if both:
            spoil(ch, req, second, w)
        kw = {} if not flags else dict(verbose=True) if op == 'mkgrid' else dict(strict=True, verbose=True)
        # (an index vector left out, or None, is that of the edge)
        ch.state(op, first, repr(v), second, repr(w), flags)
        refused(ch, req, '{} with {} {!r}{}'.format(op, first, v, ', {} {!r}'.format(second, w) if both else ''),
                lambda: ch.call(req.fn, **req.args, **kw))
    return h


def written(ch):
    """Grids written with counts, or with fields of sizes, that aren't theirs."""
    ni, nj = ch.choose('grid', [(1, 1), (3, 2), (1, 3)])
    what = ch.choose('wrong', ['ni', 'nj'] + list(ref.NAMES))
    if what in ('ni', 'nj'):
        v = ch.choose('is', [n for n in COUNTS + LARGE[:1] + [1, 2, 3, 4] if n != {'ni': ni, 'nj': nj}[what]])
    else:
        v = ch.choose('is', ['a column more', 'a row more', 'a column less', 'three dimensions', 'text'])
    ch.commit()
    g = ref.labels(ni, nj)
    kw = dict(ni=ni, nj=nj)
    if what in kw:
        kw[what] = v
    else:
        f = g[what]
        if v == 'a column less' and f.shape[1] < 3 or f.shape == (1, 1):
            raise engine.Skip()                 # (numpy repeats single ones)
        g[what] = {'a column more': np.pad(f, [(0, 0), (0, 1)]), 'a row more': np.pad(f, [(0, 1), (0, 0)]), 'text': 'text',
                   'a column less': f[:, :-1], 'three dimensions': np.stack([f, f])}[v]
    o = ch.call(sg.gridio.write_mitgridfile, ch.tmp('out'), g, kw['ni'], kw['nj'])
    ch.check(not o.ok or o.value is False, '{} {}: write_mitgridfile {}', what, v, o)
    ch.state(ni, nj, what, repr(v))


def commands(ch):
    """The same on the command line, over output that is there."""
    op = ch.choose('tool', [o for o in OPERATIONS if o not in ('read', 'regrid (matrices)')])
    arg = ch.choose('option', ARGUMENTS[op])
    if arg.startswith(('lon', 'lat')) and 'scale' not in arg:
        values = ['nan', 'inf', '-inf', 'west', ''] + (['95', '-90.5', '1e300'] if arg.startswith('lat') else [])
    elif arg.startswith(('n', 'lon', 'lat')):
        values = ['0', '-1', '-2', '-4', '1.5', 'nan', 'two', ''] + ([] if 'scale' in arg else ['50'])
    elif arg.startswith('OB_'):
        values = ['nan', '1.5', 'north', '99', '-99']
    else:
        values = [x for x in pool(op, arg) if x]
    v = ch.choose('is', values)
    form = ch.choose('form', ['=', ' '])
    old = ch.flag('the output exists')
    ch.commit()
    req = OPERATIONS[op](ch)
    opts = dict(req.args)
    if arg.startswith(('lon', 'lat', 'n')):
        opts[arg] = v
    elif arg.startswith('OB_'):
        opts[arg] = [v] * len(opts[arg])
    else:
        opts[arg] = bad_file(ch, v, opts[arg] if os.path.isfile(opts[arg]) else None)
    if op != 'getobcs':
        opts['outfile'] = ch.tmp('out')
        if old:
            ref.put(ch.tmp('out'), b'previous' * 3000)
    elif old:
        os.mkdir(ch.tmp('run_obcs'))
        ref.put(ch.tmp('run_obcs/OBNt'), b'previous')
    ch.state(op, arg, v, form, old)
    refused(ch, req, '{} --{} {}'.format(req.main.__name__, arg, v),
            lambda: sg.run_main(ch, req.main, P16.command(opts, [], form, 'as listed')))


def strange(kind):
    """Corner points of parents with points that are twice there, nowhere, or not numbers."""
    XG, YG = ref.warped(3, 2)
    what = kind.split()
    if what[0] == 'polar':
        return tiles.polar(2, 3, what[1])
    if what[0] == 'global':
        return globe(3, 2, -180., (kind == 'global poles',) * 2, (60., -70.))
    if what[0] == 'same':
        return XG * 0 + 10., YG * 0 + 20.
    if what[0] == 'all':
        return XG * NAN, YG * NAN
    if what[0] == 'point':
        (XG if what[3] == 'lon' else YG)[int(what[1]), int(what[2])] = float(what[4])
    elif kind == 'two points':
        XG[1, 0], YG[1, 0] = XG[0, 2], YG[0, 2]
    elif kind == 'opposite points':
        XG[3, 2], YG[3, 2] = XG[0, 0], YG[0, 0]
    elif kind == 'rows':
        XG[:, 1], YG[:, 1] = XG[:, 2], YG[:, 2]
    elif kind == 'rows backwards':
        XG[:, 1], YG[:, 1] = XG[::-1, 0].copy(), YG[::-1, 0].copy()
    elif kind == 'folded':
        XG[2:], YG[2:] = XG[1::-1].copy(), YG[1::-1].copy()
    elif kind == 'folded around':
        XG[2:], YG[2:] = XG[1::-1, ::-1].copy(), YG[1::-1, ::-1].copy()
    return XG, YG


STRANGE = ['polar ' + s for s in 'NESWnesw'] + ['global', 'global poles', 'same', 'all nan', 'two points', 'opposite points',
                                               'rows', 'rows backwards', 'folded', 'folded around']
POINTS = ['point {} {} {} {}'.format(i, j, x, v) for i, j in ((0, 0), (1, 1), (3, 2)) for x, v in
          [('lon', 'nan'), ('lat', 'nan'), ('lon', 'inf'), ('lat', '-inf'), ('lat', '95'), ('lat', '-1e300')]]


def doubtful(XG, YG, x, y):
    """Are there several nodes just as near to a point?  (Which one it is isn't specified, nor that it stays so.)"""
    if not np.all(np.isfinite([XG, YG])) or not np.isfinite(x + y) or np.max(np.abs(YG)) > 90 or abs(y) > 90:
        return False
    d = ref.angle(ref.xyz(XG, YG), ref.xyz(x, y))
    near = d <= d.min() + 1e-9
    return near.sum() > 1 and (near & (XG == x) & (YG == y)).sum() != 1


def endless(kinds, off):
    """regrid, from any point to any other, of parents that leave room for doubt."""
    def h(ch):
        kind = ch.choose('parent', kinds)
        k = ch.choose('quarter turns', [0, 1, 2, 3])
        mirror = ch.flag('mirrored')
        # (a parent has 12 points, or 9)
        a = ch.choose('first point', 12)
        dx, dy = ch.choose('points given are off by', off)
        ch.commit()
        XG, YG = strange(kind)
        XG, YG = ref.rotate(XG, YG, k)
        if mirror:
            XG, YG = XG[::-1].copy(), YG[::-1].copy()
        nodes = list(np.ndindex(XG.shape))
        if a >= len(nodes):
            raise engine.Skip()
        a = nodes[a]
        if kind != 'same' and doubtful(XG, YG, XG[a] + dx, YG[a] - dy):
            raise engine.Skip()
        for b in nodes:
            if kind != 'same' and doubtful(XG, YG, XG[b] - dx, YG[b] + dy):
                continue
            o = ch.call(sg.regrid.regrid, mitgrid_matrices=parent_of(XG, YG), lon1=XG[a] + dx, lat1=YG[a] - dy,
                        lon2=XG[b] - dx, lat2=YG[b] + dy, lon_subscale=1, lat_subscale=2)
            bad = not np.all(np.isfinite([XG[a], YG[a], XG[b], YG[b]])) or abs(YG[a] - dy) > 90 or abs(YG[b] + dy) > 90
            ch.check(o.ok or o.raised(ValueError), '{} to {}: regrid {}', a, b, o)
            ch.check(not o.ok or not bad, '{} to {}: regrid {}', a, b, o)
            if o.ok:
                g, ni, nj = o.value
                ch.check(ni > 0 and nj > 0 and np.shape(g['XG']) == (ni + 1, nj + 1), '{} to {}: counts {}, {}', a, b, ni, nj)
                if not dx and not dy:
                    for n, p in ((a, (0, -1)), (b, (-1, 0))):
                        d = np.linalg.norm(ref.xyz(XG[n], YG[n]) - ref.xyz(g['XG'][p], g['YG'][p]))
                        ch.check(d < 1e-9, '{} to {}: {} of the result is {},{}', a, b, p, g['XG'][p], g['YG'][p])
        ch.state(kind, k, mirror, a, dx)
    return h


def unmatched(ch):
    """Tiles with points along their common edge that are nowhere have no such edge."""
    fn = ch.choose('operation', ['matchedges', 'addfringe', 'stitch'])
    side = ch.choose('tile b is', 'NESW')
    along = ch.choose('cells along', [1, 2, 3])
    at = ch.choose('point', along + 1)
    which = ch.choose('of tile', ['a', 'b', 'both'])
    x, v = ch.choose('is', [('XG', NAN), ('YG', NAN), ('XG', INF), ('YG', -INF), ('YG', 91.), ('YG', -1e300)])
    ch.commit()
    boxa, boxb, (ni, nj) = tiles.neighbours(side, 2, 1, along)
    G = dict(zip(('XG', 'YG'), ref.warped(ni, nj)))
    g = {t: ref.full(*tiles.cut(G['XG'], G['YG'], b)) for t, b in (('a', boxa), ('b', boxb))}
    for t in 'ab' if which == 'both' else which:
        tiles.edge(g[t][x], side if t == 'a' else tiles.OPPOSITE[side])[at] = v
    ch.state(fn, side, along, at, which, x, v)
    if fn == 'matchedges':
        a, b = g['a'], g['b']
        o = ch.call(sg.matchedges.matchedges, a['XG'], a['YG'], b['XG'], b['YG'], sg.GEOD)
        ch.check(o.ok and tuple(o.value[:2]) == (-1, -1) or o.raised(ValueError), 'matchedges {}', o)
        return
    kw = {}
    for t in 'ab':
        kw['ni' + t], kw['nj' + t] = g[t]['XC'].shape
        kw['tile' + t] = tiles.save(ch.tmp(t), g[t], kw['ni' + t], kw['nj' + t])
    o = ch.call(getattr(getattr(sg, fn), fn), **kw)
    ch.check(o.raised(ValueError), '{}: {}, ValueError expected', fn, o)


def meta(how):
    """Metadata files cut off at, or with another character in, every place: reading ends; what was cut off
    reads as it did, or not at all."""
    def h(ch):
        text = ch.choose('metadata', ['plain', 'all'])
        by = ch.choose('by', ['rdmds', 'parsemeta'])
        char = ch.choose('character', list("[]{};=, '/*\n\\9") if how == 'replaced' else [None])
        a = mdsref.values(2, (2, 2, 3))
        mdsref.write(ch.tmp('F'), a)
        good = open(ch.tmp('F.meta'), 'rb').read()
        if text == 'all':
            good += b" nFlds = [ 2 ];\n fldList = {\n 'T       ' 'Salt    '\n };\n simulation = { 'it''s // a' };\n"
        n = ch.choose('place', len(good))
        ch.commit()
        ref.put(ch.tmp('F.meta'), good[:n] if how == 'cut off' else good[:n] + char.encode() + good[n + 1:])
        fn = sg.mds.rdmds if by == 'rdmds' else sg.mds.parsemeta
        o = ch.call(fn, ch.tmp('F') if by == 'rdmds' else ch.tmp('F.meta'))
        if how == 'cut off' and by == 'rdmds' and o.ok:
            ch.check(np.shape(o.value) in ((2, 2, 2, 3),) and np.array_equal(np.ravel(o.value), np.ravel(a)),
                     'metadata cut off after {} of {} bytes: rdmds {}', n, len(good), o)
        ch.state(text, by, char, n)
    return h


def scenarios(tier):
    ops = list(OPERATIONS)
    big = tier == 'thorough'
    off = [(0, 0)] + ([(.1, .07), (-.1, .2)] if big else [(.1, .07)])
    return [('functions', functions(ops, False)), ('written', written), ('commands', commands),
            ('two arguments', functions(ops if big else ['mkgrid', 'read', 'stitch'], True)),
            ('endless', endless(STRANGE + POINTS, off)), ('unmatched', unmatched),
            ('metadata cut off', meta('cut off')), ('metadata replaced', meta('replaced'))]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P28', 'model_checking', scenarios,
        'operations x arguments x values that make no sense (one, or two at a time), as functions and commands; parents '
        'with points twice there, or nowhere x pairs of points x turns; metadata cut off at or changed in every byte',
        ['regrid is not asked for points as near to several nodes: which one it takes is not specified'],
        {'quick': 'two arguments: three operations', 'thorough': 'two arguments: all operations'}))
