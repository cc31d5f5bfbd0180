"""Command line tools do what the functions do: same results, same refusals."""
import os
import subprocess
import sys

import numpy as np

from mc import engine, obcs, ref, sg, tiles

STRICT = ('sgregrid', 'sgaddfringe', 'sgstitch', 'sggetobcs')
TOOLS = {'sgmkgrid': sg.mkgrid, 'sgregrid': sg.regrid, 'sgaddfringe': sg.addfringe, 'sgstitch': sg.stitch,
         'sggetobcs': sg.getobcs}


class Case:
    """Options of one tool, and the same request to the function."""

    def __init__(self, opts, call, fails=False):
        self.opts, self.call, self.fails = opts, call, fails


def grid_file(ch, name, g):
    ni, nj = g['XC'].shape
    return tiles.save(ch.tmp(name), g, ni, nj), ni, nj


def dirty(path, n=8):
    """Set one padding term (of XC)."""
    data = bytearray(open(path, 'rb').read())
    data[n * 8:n * 8 + 8] = b'\x3f\xf0\0\0\0\0\0\0'
    ref.put(path, bytes(data))


def mkgrid(ch):
    c = ch.choose('corners', [(10., 40., 14.5, 37.), (-10.25, -40., -6., -43.5), (359.5, 5., 0.5, -5.),
                              (170., 1., 190., -1.), (0., 90., 3., 87.), (14.5, 37., 10., 40.), (1, 2, 3, 0),
                              (-35.12345678901234, 20.98765432109877, -30.000000001230004, 17.1234567890123)])
    n = ch.choose('cells', [(1, 1), (3, 2), (1, 4)])
    kw = dict(zip(('lon1', 'lat1', 'lon2', 'lat2', 'lon_subscale', 'lat_subscale'), c + n))
    return lambda: Case(dict(kw), lambda s, v: sg.mkgrid.mkgrid(v, **kw))


def regrid(ch):
    west = ch.choose('west', [-35., 200.])
    turns = ch.choose('quarter turns', [0, 3])
    kind = ch.choose('source', ['mitgridfile', 'bin+bin', 'csv+csv', 'csv+bin', 'bin+csv', 'nothing', 'xg only'])
    where = ch.choose('corners', ['all', 'part', 'degenerate'])
    s = ch.choose('subscales', [(1, 1), (2, 3)])

    def build():
        XG, YG = ref.warped(3, 2, west)
        g = ref.full(*ref.rotate(XG, YG, turns))
        a, b = {'all': ((0, -1), (-1, 0)), 'part': ((1, 2), (3, 0)), 'degenerate': ((1, 1), (1, 2))}[where]
        kw = dict(lon1=float(XG[a]), lat1=float(YG[a]), lon2=float(XG[b]), lat2=float(YG[b]),
                  lon_subscale=s[0], lat_subscale=s[1])
        if kind == 'mitgridfile':
            kw['mitgridfile'], kw['ni'], kw['nj'] = grid_file(ch, 'p.mitgrid', g)
        else:
            kw['ni'], kw['nj'] = g['XC'].shape
            for name, ext in zip(('xg', 'yg'), {'nothing': (), 'xg only': ('bin',)}.get(kind, kind.split('+'))):
                v = g[name.upper()]
                path = ch.tmp(name + '.' + ext)
                if ext == 'csv':
                    data = '\n'.join(','.join(repr(float(x)) for x in row) for row in v).encode() + b'\n'
                else:
                    data = np.ascontiguousarray(v.T).astype('>f8').tobytes()
                kw[name + '_file'] = ref.put(path, data)
        return Case(dict(kw), lambda s, v: sg.regrid.regrid(s, v, **kw),
                    where == 'degenerate' or kind in ('nothing', 'xg only'))
    return build


def pair(ch, fn):
    side = ch.choose('tile b is', ['E', 'W', 'N', 'S', 'apart'])
    na, nb = ch.choose('cells across', [(1, 1), (2, 1), (1, 3)])
    along = ch.choose('cells along', [1, 2])

    def build():
        s = 'E' if side == 'apart' else side
        boxa, boxb, (ni, nj) = tiles.neighbours(s, na, nb, along)
        XG, YG = ref.warped(ni, nj)
        A, B = [ref.full(*tiles.cut(XG, YG, b)) for b in (boxa, boxb)]
        if side == 'apart':
            B['XG'] = B['XG'] + 20
        else:
            A['DXC'] = A['DXC'] + 5.
            A['RAC'][0, 0] = 0
        kw = {}
        for t, g in (('a', A), ('b', B)):
            kw['tile' + t], kw['ni' + t], kw['nj' + t] = grid_file(ch, t + '.mitgrid', g)
        return Case(dict(kw), lambda s, v: fn(s, v, **kw), side == 'apart')
    return build


def grid_of(tool, value):
    if tool == 'sgaddfringe':
        g = value[2]
        return g, g['XC'].shape[0], g['XC'].shape[1]
    return value


SPECS = {'sgmkgrid': mkgrid, 'sgregrid': regrid, 'sgaddfringe': lambda ch: pair(ch, sg.addfringe.addfringe),
         'sgstitch': lambda ch: pair(ch, sg.stitch.stitch)}
ORDERS = ['as listed', 'reversed', 'flags first']


def command(opts, flags, form, order):
    words = [['--{}={}'.format(k, v)] if form == '=' and not isinstance(v, list) else
             ['--' + k] + [str(x) for x in (v if isinstance(v, list) else [v])] for k, v in opts.items()]
    flags = [[f] for f in flags]
    words = words + flags if order == 'as listed' else flags + words if order == 'flags first' else \
        (words + flags)[::-1]
    return [w for ws in words for w in ws]


def failed(o):
    """An exception, or an exit status other than 0."""
    if o.ok:
        return o.value not in (None, 0, False)
    if isinstance(o.exc, SystemExit):
        return o.exc.code not in (None, 0)
    return True


def flags_of(ch, tool):
    f = []
    if tool in STRICT:
        f += ch.choose('strict', [[], ['--strict'], ['-s']])
    f += ch.choose('verbose', [[], ['--verbose'], ['-v']] if not f or f == ['-s'] else [[], ['-v']])
    return f


def grids(tool, what):
    def h(ch):
        build = SPECS[tool](ch if what != 'forms' else First(ch))
        form, order, old = ' ', 'as listed', 'exists'
        if what != 'requests':
            form = ch.choose('form', [' ', '='])
            order = ch.choose('order', ORDERS)
            old = ch.choose('output file', ['new', 'exists'])
        pad = ch.flag('nonzero padding') if tool in STRICT else False
        flags = flags_of(ch, tool) if what != 'requests' or pad else ch.choose('flags', [[], ['-v']])
        ch.commit()
        case = build()
        if pad:
            f = case.opts.get('mitgridfile', case.opts.get('tilea'))
            if f is None:
                raise engine.Skip()
            dirty(f, case.opts.get('ni', case.opts.get('nia')))
        strict = '-s' in flags or '--strict' in flags
        verbose = '-v' in flags or '--verbose' in flags
        out = ch.tmp('out')
        if old == 'exists':
            ref.put(out, b'previous' * 7000)
        api = ch.call(case.call, strict, verbose)
        ch.check(api.ok != (case.fails or (pad and strict)), 'the function {}', api)
        o = sg.run_main(ch, TOOLS[tool], command(dict(case.opts, outfile=out), flags, form, order))
        ch.state(tool, [(k, v if not isinstance(v, str) else '') for k, v in case.opts.items()],
                 [t for t in ch.trace], form, order, pad, old, flags)
        have = open(out, 'rb').read() if os.path.exists(out) else None
        if not api.ok:
            ch.check(failed(o), 'the function {}, but the tool {}', api, o)
            ch.check(have == (b'previous' * 7000 if old == 'exists' else None),
                     'refused, but the output file was written')
            return
        ch.check(not failed(o), 'the function returned, but the tool {}', o)
        g, ni, nj = grid_of(tool, api.value)
        ch.check(have == ref.pack(g, ni, nj), 'the file written by {} is not what the function returns', tool)
    return h


def missing(tool):
    """A required option left out, misspelt or without a proper value: refused, nothing written."""
    def h(ch):
        case = SPECS[tool](First())()
        out = ch.tmp('out')
        opts = dict(case.opts, outfile=out)
        k = ch.choose('option', sorted(opts))
        how = ch.choose('is', ['missing', 'misspelt', 'without value', 'not a number', 'unknown flag added'])
        ch.commit()
        case = SPECS[tool](First(ch))()
        opts = dict(case.opts, outfile=out)
        argv = command({n: v for n, v in opts.items() if n != k}, [], ' ', 'as listed')
        if how == 'misspelt':
            argv += ['--x' + k, str(opts[k])]
        elif how == 'without value':
            argv += ['--' + k]
        elif how == 'not a number':
            if isinstance(opts[k], str):
                raise engine.Skip()
            argv += ['--' + k, '1..5']
        elif how == 'unknown flag added':
            argv = command(opts, ['--nosuch'], ' ', 'as listed')
        o = sg.run_main(ch, TOOLS[tool], argv)
        ch.state(tool, k, how)
        ch.check(failed(o), 'option {} {}, but the tool {}', k, how, o)
        ch.check(not os.path.exists(out), 'option {} {}, but output was written', k, how)
    return h


class First:
    """A chooser for a default case: the first of everything."""

    def __init__(self, ch=None):
        self.ch = ch

    def choose(self, label, options):
        return list(options)[0]

    def tmp(self, name):
        return self.ch.tmp(name) if self.ch else os.path.join(engine._scratch_root(), name)


def openboundaries(vectors, every):
    def h(ch):
        n, s, e, w = [ch.choose(k, v) for k, v in zip(('OB_Jnorth', 'OB_Jsouth', 'OB_Ieast', 'OB_Iwest'), vectors)]
        where = ch.choose('resultsdir', ['given', 'default'])
        form = ch.choose('form', [' '])
        order = ch.choose('order', ORDERS if every else ORDERS[1:2])
        flags = flags_of(ch, 'sggetobcs') if every else ch.choose('flags', [[], ['-s'], ['-v']])
        dirt = ch.choose('nonzero padding', [None, 'parent', 'regional'][:3 if every or (n, s) == (None, None) else 1])
        ch.commit()
        case = obcs.Case(3, 3, 3, 2, times=(0, 72), depths=2)
        opts = {}
        for k, g in (('parent', case.parent), ('regional', case.region)):
            opts[k + '_mitgridfile'], opts['ni_' + k], opts['nj_' + k] = grid_file(ch, k, g)
        if dirt:
            dirty(opts[dirt + '_mitgridfile'], opts['ni_' + dirt])
        dirs = []
        for d in ('run1', 'run2'):
            case.write_results(ch.tmp(d), fields=('T', 'U', 'Eta'))
            dirs.append(ch.tmp('other' + d) if where == 'given' else ch.tmp(d) + '_obcs')
        vec = {k: v for k, v in (('OB_Jnorth', n), ('OB_Jsouth', s), ('OB_Ieast', e), ('OB_Iwest', w))
               if v is not None}
        extra = [{'resultsdir': d} if where == 'given' else {} for d in dirs]
        api = ch.call(sg.getobcs.getobcs, '-s' in flags or '--strict' in flags, '-v' in flags or
                      '--verbose' in flags, parent_resultsdir=ch.tmp('run1'), **opts, **vec, **extra[0])
        strict = '-s' in flags or '--strict' in flags
        ch.check(api.ok != bool(dirt and strict), 'the function {}', api)
        o = sg.run_main(ch, sg.getobcs, command(dict(opts, parent_resultsdir=ch.tmp('run2'), **vec, **extra[1]),
                                                flags, form, order))
        ch.state(n, s, e, w, where, form, order, flags, dirt)
        if not api.ok:
            ch.check(failed(o), 'the function {}, but the tool {}', api, o)
            ch.check(not [f for d in dirs if os.path.isdir(d) for f in os.listdir(d) if f.startswith('OB')],
                     'refused, but boundary files were written')
            return
        ch.check(not failed(o), 'the function returned, but the tool {}', o)
        a, b = [{f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d) if f.startswith('OB')}
                for d in dirs]
        ch.check(a and a == b, 'sggetobcs wrote {}, the function {} (or their contents differ)', sorted(b), sorted(a))
    return h


def scripts(ch):
    """The real thing: a process per tool, through its console entry point."""
    tool = ch.choose('tool', sorted(SPECS))
    how = ch.choose('call', ['good', 'bad'])
    ch.commit()
    case = SPECS[tool](First(ch))()
    out = ch.tmp('out')
    opts = dict(case.opts, outfile=out)
    if how == 'bad':
        key = {'sgmkgrid': 'lon1', 'sgregrid': 'mitgridfile'}.get(tool, 'tileb')
        opts[key] = 'nonsense' if key == 'lon1' else ch.tmp('nosuchfile')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                        'import sys; sys.path[:0] = {!r}; sys.argv[0] = {!r}; import simplegrid.{m}; '
                        'sys.exit(simplegrid.{m}.main())'.format(
                            [sg.REPO, os.path.join(engine.VERIF, 'stubs')], tool, m=tool[2:])]
                       + command(opts, ['-v'], ' ', 'as listed'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    ch.stats['transitions'] += 1
    if how == 'bad':
        ch.check(p.returncode != 0, '{} reports success for a bad request', tool)
        ch.check(not os.path.exists(out), '{} wrote output for a bad request', tool)
    else:
        ch.check(p.returncode == 0, '{} failed: {}', tool, p.stdout[-300:])
        g, ni, nj = grid_of(tool, ch.must(tool, case.call, False, False))
        ch.check(open(out, 'rb').read() == ref.pack(g, ni, nj), 'the file written by {} is not what the function '
                 'returns', tool)
    ch.state(tool, how)


def scenarios(tier):
    some = [None, [1, 2, -1], [0, 0, 0]], [None, [-2, 1, 1]], [None, [0], [1, -1]], [None, [2, 3]]
    if tier == 'thorough':
        some = [None, [1, 2, -1], [0, 0, 0], [0]], [None, [-2, 1, 1], [2, 2, -1]], [None, [0], [1, -1], [3, 3]], \
            [None, [2, 3], [-1, -3], [0, 0]]
    kinds = ['everything'] if tier == 'thorough' else ['requests', 'forms']
    return [(t + ' ' + k, grids(t, k)) for t in sorted(SPECS) for k in kinds] + [('missing ' + t, missing(t)) for t in sorted(SPECS)] + \
        [('sggetobcs', openboundaries(some, tier == 'thorough')), ('scripts', scripts)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P16', 'model_checking', scenarios,
        'all requests of a set per tool x option forms x option orders x flags x state of the output file; '
        'every option missing or malformed; index vectors of sggetobcs', [],
        {'quick': 'see scenarios', 'thorough': 'more index vectors'}))
