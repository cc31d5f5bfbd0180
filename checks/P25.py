"""It makes no difference what files and directories are called, or how they are given."""
import glob
import os
import sys

import numpy as np

from checks.P21 import KEY
from mc import engine, mdsref, obcs, ref, sg, tiles

# (of files or directories; what some function could take for something else)
NAMES = ['g', 'run 1', ' lead', 'v1.0.2', 'run[1]', 'r[!a]', 'star*', 'q?', 'gr\u00fcn', '0000000012', '-v', '--help', '~', '$HOME',
         '%s{0}%d', 'run{tile}', '{9', "it's \"it\"", 'x' * 120, 'g.csv', 'csv', 'g.data', 'T.meta', 'XC', '.hidden', 'a#b', 'a\\b', 'tab\there',
         'OBNt', 'None', 'g.mitgrid', 'run_obcs', '.001.001', 'T.0000000003', 'a=b', 'a,b', 'a:b']
FORMS = ['absolute', 'relative', './', 'trailing', '//', 'up', 'symlink']
DECOYS = {'run[1]': ['run1'], 'r[!a]': ['rb'], 'star*': ['starry'], 'q?': ['qq'], 'g.data': ['g'], '%s{0}%d': ['%s0%d']}


def place(ch, name, form):
    """The (existing) directory called name, given in a certain way.  Also goes there or somewhere else."""
    top = ch.tmp('top')
    os.makedirs(os.path.join(top, name))
    for n in DECOYS.get(name, ()):
        os.makedirs(os.path.join(top, n), exist_ok=True)
    cwd = ch.tmp('elsewhere')
    os.mkdir(cwd)
    os.chdir(cwd if form in ('absolute', 'trailing', '//', 'symlink') else top)
    if form == 'absolute':
        return os.path.join(top, name)
    if form == 'relative':
        return name
    if form == './':
        return './' + name
    if form == 'trailing':
        return os.path.join(top, name) + '/'
    if form == '//':
        return top + '//' + name
    if form == 'up':
        os.makedirs(os.path.join(top, 'sub', 'sub'))
        os.chdir(os.path.join(top, 'sub', 'sub'))
        return os.path.join('..', '..', name)
    os.symlink(os.path.join(top, name), os.path.join(cwd, 'link' + name[:20]))
    return 'link' + name[:20]


def decoy(ch, name, sub, make):
    for n in DECOYS.get(name, ()):
        d = os.path.join(ch.tmp('top'), n, sub)
        os.makedirs(d, exist_ok=True)
        make(d)


def at_home(fn):
    def h(ch):
        home = os.getcwd()
        try:
            fn(ch)
        finally:
            os.chdir(home)
    return h


def filename(d, name, ext=''):
    return os.path.join(d, name + ext)


def one_of(ch, plain=True):
    """Names for directory and file, and how to give them: everything with a plain name for the other."""
    role = ch.choose('unusual name of the', ['directory', 'file', 'both'])
    name = ch.choose('name', NAMES)
    form = ch.choose('given', FORMS if role != 'file' else FORMS[:2])
    ch.commit()
    d, f = ('g' if role == 'file' else name), ('g' if role == 'directory' else name)
    ch.state(role, name, form)
    return d, f, form


@at_home
def gridfiles(ch):
    op = ch.choose('operation', ['read', 'write', 'regrid', 'regrid bin', 'regrid csv', 'regrid csv+bin', 'addfringe', 'stitch',
                                 'matchedges'][:8])
    verbose = ch.flag('verbose')
    dname, fname, form = one_of(ch)
    d = place(ch, dname, form)
    XG, YG = ref.warped(2, 2, 20.)
    g = ref.full(XG, YG)
    other = ref.full(*ref.warped(2, 2, 60., seed=5))
    decoy(ch, dname, '', lambda x: [ref.put(os.path.join(x, n), ref.pack(other, 2, 2)) for n in {fname, 'g'}])
    f = os.path.join(d, fname)

    def same(o, want, what):
        ch.check(o.ok, '{}: {}', what, o)
        ch.check(sg.snapshot(o.value) == sg.snapshot(want), '{}: another result', what)

    what = '{} {!r}'.format(op, f)
    if op == 'read':
        ref.put(f, ref.pack(g, 2, 2))
        same(ch.call(sg.gridio.read_mitgridfile, f, 2, 2, False, verbose), sg.gridio.read_mitgridfile(ref.put(ch.tmp('p'), ref.pack(g, 2, 2)), 2, 2), what)
    elif op == 'write':
        o = ch.call(sg.gridio.write_mitgridfile, f, g, 2, 2, verbose)
        ch.check(o.ok, '{}: {}', what, o)
        ch.check(os.listdir(d) == [fname], '{}: {} there', what, os.listdir(d))
        ch.check(open(f, 'rb').read() == ref.pack(g, 2, 2), '{}: other contents', what)
    elif op.startswith('regrid'):
        kw = dict(ni=2, nj=2, lon1=float(XG[0, -1]), lat1=float(YG[0, -1]), lon2=float(XG[-1, 0]), lat2=float(YG[-1, 0]),
                  lon_subscale=1, lat_subscale=1)
        want = sg.regrid.regrid(mitgrid_matrices=g, **kw)
        if op == 'regrid':
            kw['mitgridfile'] = ref.put(f, ref.pack(g, 2, 2))
        else:
            kinds = {'regrid bin': ('', ''), 'regrid csv': ('.csv', '.csv'), 'regrid csv+bin': ('.csv', '.bin')}[op]
            for c, v, ext in zip('xy', (XG, YG), kinds):
                if ext != '.csv' and os.path.splitext(fname + c + ext)[1] == '.csv':
                    raise engine.Skip()             # (by documentation, that is text)
                text = '\n'.join(','.join(repr(float(x)) for x in row) for row in v).encode()
                kw[c + 'g_file'] = ref.put(f + c + ext, text if ext == '.csv' else v.T.astype('>f8').tobytes())
        same(ch.call(sg.regrid.regrid, False, verbose, **kw), want, what)
    else:
        boxa, boxb, (ni, nj) = tiles.neighbours('E', 1, 2, 2)
        XG, YG = ref.warped(ni, nj)
        A, B = [ref.full(*tiles.cut(XG, YG, b)) for b in (boxa, boxb)]
        kw = dict(nia=1, nja=2, nib=2, njb=2)
        fn = getattr(getattr(sg, op), op)
        want = fn(tilea=ref.put(ch.tmp('pa'), ref.pack(A, 1, 2)), tileb=ref.put(ch.tmp('pb'), ref.pack(B, 2, 2)), **kw)
        same(ch.call(fn, False, verbose, tilea=ref.put(f + 'a', ref.pack(A, 1, 2)), tileb=ref.put(f + 'b', ref.pack(B, 2, 2)), **kw), want, what)


@at_home
def commands(ch):
    op = ch.choose('tool', ['mkgrid', 'regrid', 'addfringe', 'stitch'])
    verbose = ch.flag('verbose')
    dname, fname, form = one_of(ch)
    d = place(ch, dname, form)
    f = os.path.join(d, fname)
    XG, YG = ref.warped(2, 2, 20.)
    place_of = {'lon1': XG[0, -1], 'lat1': YG[0, -1], 'lon2': XG[-1, 0], 'lat2': YG[-1, 0]}

    def opts(pre):
        if op == 'mkgrid':
            return dict(lon1=1, lat1=3, lon2=2, lat2=2, lon_subscale=1, lat_subscale=2)
        if op == 'regrid':
            return dict(mitgridfile=ref.put(pre + 'p', ref.pack(ref.full(XG, YG), 2, 2)), ni=2, nj=2, lon_subscale=1,
                        lat_subscale=1, **place_of)
        boxa, boxb, (ni, nj) = tiles.neighbours('N', 1, 2, 2)
        X, Y = ref.warped(ni, nj)
        o = {}
        for t, b in zip('ab', (boxa, boxb)):
            x, y = tiles.cut(X, Y, b)
            n, m = x.shape[0] - 1, x.shape[1] - 1
            o.update({'tile' + t: ref.put(pre + t, ref.pack(ref.full(x, y), n, m)), 'ni' + t: n, 'nj' + t: m})
        return o

    def run(pre, out):
        argv = ['--{}={}'.format(k, v) for k, v in opts(pre).items()] + ['--outfile=' + out] + ['-v'] * verbose
        return sg.run_main(ch, getattr(sg, op), argv)

    before = {os.path.basename(p) for p in opts(f).values() if isinstance(p, str)}
    p = run(ch.tmp('plain'), ch.tmp('plain-out'))
    ch.check(p.ok and not p.value, 'sg{}: {}', op, p)
    o = run(f, f)
    ch.check(o.ok and not o.value, 'sg{} {!r}: {}', op, f, o)
    ch.check(set(os.listdir(d)) == before | {fname}, 'sg{} {!r}: {} there', op, f, os.listdir(d))
    ch.check(open(f, 'rb').read() == open(ch.tmp('plain-out'), 'rb').read(), 'sg{} {!r}: other contents', op, f)


@at_home
def mds(ch):
    op = ch.choose('operation', ['wrmds', 'rdmds', 'mds2mitgrid'])
    dname, fname, form = one_of(ch)
    tiled = ch.flag('tiled') if op != 'wrmds' else False
    it = ch.choose('iteration', [None, 3]) if op != 'mds2mitgrid' else None
    d = place(ch, dname, form)
    a = mdsref.values(1, (2, 4), 5)
    f = os.path.join(d, fname)
    what = '{} {!r}'.format(op, f)

    def save(base, a, **kw):
        if not tiled:
            return mdsref.write(base, a, **kw)
        for t in (0, 1):
            mdsref.write(base, a[..., 2 * t:2 * t + 2], tile=[(0, 2), (2 * t, 2 * t + 2)], gdims=(2, 4),
                         suffix='.00{}.001'.format(t + 1), **kw)

    if op == 'wrmds':
        full = fname + ('' if it is None else '.0000000003')
        o = ch.call(sg.mds.wrmds, f, a[0], itr=it, dataprec='float64')
        ch.check(o.ok, '{}: {}', what, o)
        ch.check(sorted(os.listdir(d)) == sorted([full + '.data', full + '.meta']), '{}: {} there', what, os.listdir(d))
        ch.check(open(os.path.join(d, full + '.data'), 'rb').read() == a.astype('>f8').tobytes(), '{}: other contents', what)
    elif op == 'rdmds':
        decoy(ch, dname, '', lambda x: save(os.path.join(x, fname), a + 50, it=it))
        for n in DECOYS.get(fname, ()):
            save(os.path.join(d, n), a + 70, it=it)
        save(f, a, it=it)
        for itrs in (-1,) if it is None else (3, [3], np.nan, np.inf):
            o = ch.call(sg.mds.rdmds, glob.escape(f), itrs, verbose=tiled)     # (names are patterns here)
            ch.check(o.ok, '{}: {}', what, o)
            r = o.value[0] if isinstance(o.value, tuple) else o.value
            ch.check(np.array_equal(np.squeeze(r), a[0]), '{}: other contents', what)
    else:
        if fname not in 'g':
            raise engine.Skip()             # (the files' names are given)
        decoy(ch, dname, '', lambda x: [save(os.path.join(x, n), a + 50) for n in ('XC', 'YC', 'DXG')])
        for k, n in enumerate(('XC', 'YG', 'RAC')):
            save(os.path.join(d, n), a + k)
        o = ch.call(sg.mds2mitgrid.mds2mitgrid, d, verbose=tiled)
        ch.check(o.ok, '{}: {}', what, o)
        g, ni, nj = o.value
        ch.check((ni, nj) == (4, 2), '{}: {} x {} cells', what, ni, nj)
        ch.check(sorted(n for n in g if g[n] is not None) == ['RAC', 'XC', 'YG'], '{}: other fields', what)
        for k, n in enumerate(('XC', 'YG', 'RAC')):
            ch.check(np.array_equal(g[n][:4, :2].T, a[0] + k), '{}: other {}', what, n)


@at_home
def boundaries(ch):
    role = ch.choose('unusual name of the', ['results', 'output', 'grid files', 'all'])
    name = ch.choose('name', NAMES)
    form = ch.choose('given', FORMS)
    out = ch.choose('output directory', ['given', 'default'])
    cli = ch.flag('command')
    ch.commit()
    if role == 'output' and out == 'default':
        raise engine.Skip()
    ch.state(role, name, form, out, cli)
    d = place(ch, name, form)
    case = obcs.Case(2, 2, 2, 1, times=(0, 7), depths=1)

    plain = ch.tmp('plain')
    os.mkdir(plain)
    run = os.path.join(d, 'results') if role in ('grid files', 'output') else d
    if role in ('output', 'grid files'):
        run = os.path.join(plain, 'run')
    case.write_results(run, ('T', 'V'))
    decoy(ch, name, '', lambda x: case.write_results(x, ('T', 'V'), offset=9.))
    kw = dict(parent_resultsdir=run, ni_parent=2, nj_parent=2, ni_regional=2, nj_regional=1)
    g = d if role in ('grid files', 'all') else plain
    kw['parent_mitgridfile'] = tiles.save(os.path.join(g, name if g is d else 'p'), case.parent, 2, 2)
    kw['regional_mitgridfile'] = tiles.save(os.path.join(g, (name if g is d else '') + 'r'), case.region, 2, 1)
    for s in 'SE':
        kw[KEY[s]] = [0] if not cli else ['0']
    if out == 'given':
        kw['resultsdir'] = os.path.join(d if role in ('output', 'all') else plain, 'o', name if role != 'grid files' else 'out')
        res = kw['resultsdir']
    else:
        res = run.rstrip('/') + '_obcs'
    if cli:
        argv = []
        for k, v in kw.items():
            argv += ['--' + k] + v if isinstance(v, list) else ['--{}={}'.format(k, v)]
        o = sg.run_main(ch, sg.getobcs, argv + ['-v'] * (out == 'default'))
    else:
        o = ch.call(sg.getobcs.getobcs, False, out == 'default', **kw)
    what = 'getobcs {!r} -> {!r}'.format(run, res)
    ch.check(o.ok and (not cli or not o.value), '{}: {}', what, o)
    ch.check(os.path.isdir(res), '{}: no output there', what)
    got = sorted(f for f in os.listdir(res) if f.startswith('OB'))
    ch.check(got == ['OBNt', 'OBNv', 'OBWt', 'OBWv'], '{}: {}', what, got)
    for s in 'NW':
        for v in 'TV':
            b = np.fromfile(os.path.join(res, 'OB' + s + v.lower()), '>f8')
            want = case.expected(v, s)
            ch.check(b.size == want.size and np.allclose(b, want.ravel(order='F'), rtol=1e-6), '{}: other {} {}', what, s, v)


def scenarios(tier):
    return [('grid files', gridfiles), ('command line tools', commands), ('mds', mds), ('boundaries', boundaries)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P25', 'model_checking', scenarios,
        'every operation x {} names of the directory, the file or both x {} ways to give them (relative, via links...), with '
        'directories beside that a name would match if taken for a pattern; compared with plain names'.format(len(NAMES), len(FORMS)),
        ['names given to rdmds are patterns by documentation, and are escaped', 'names that are no text (bytes, Path)'],
        {'quick': 'all', 'thorough': 'the same'}))
