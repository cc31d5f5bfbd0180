"""Operations depend on their arguments only, and change nothing but what they return:
every history of operations, against each operation by itself in a fresh process."""
import copy
import os
import sys
import warnings

import numpy as np

from mc import engine, mdsref, obcs, ref, sg, tiles


class World:
    """Input data of the operations, in memory and on file."""

    made = {}

    def __init__(self, d, variant=0):
        """Variants 0 and 1 differ in all values, but not in sizes or names; 2 differs from 0 in few values,
        none of them at the corners or ends of anything."""
        if variant not in World.made:
            t = World.__new__(World)
            t.make(d + '-first', variant)
            World.made[variant] = t, {p[len(t.d):]: data for p, data in t.files()}
        t, files = World.made[variant]
        self.__dict__.update(copy.deepcopy(t.__dict__))
        self.d = d
        os.makedirs(os.path.join(d, 'run'), exist_ok=True)
        for p, data in files.items():
            ref.put(d + p, data)
        self.given = self.inputs()

    tag = ''                # (of names of files written)

    def make(self, d, v):
        self.d = d
        v, few = (0, .02) if v == 2 else (v, 0.)
        self.shift = 7.25 * v
        self.XG, self.YG = ref.warped(3, 2, -35 + self.shift, seed=1 + v)
        self.XG[1, 1] += few
        self.YG[2, 1] -= few
        self.parent = ref.full(self.XG, self.YG)
        self.turned = ref.full(*ref.rotate(self.XG, self.YG, 1))
        # (as read from a file: x fastest)
        self.fortran = {k: np.asfortranarray(u) for k, u in ref.full(*ref.rotate(self.XG, self.YG, 2)).items()}
        X, Y = ref.warped(2, 1, 200. + self.shift, 40., 0.01, seed=1 + v)
        X[1, 0] += few / 20
        self.small = ref.full(X, Y)
        self.a = ref.full(*tiles.cut(self.XG, self.YG, (0, 2, 0, 2)))
        self.b = ref.full(*tiles.cut(self.XG, self.YG, (2, 3, 0, 2)))
        self.a['RAZ'][1, 1] += few
        self.b['RAS'][0, 1] += few
        self.far = ref.full(*ref.warped(2, 2, 100. + self.shift))
        self.partial = {k: u.copy() for k, u in self.a.items()}
        for k in ('XC', 'DXF', 'RAC', 'DYG'):
            self.partial[k][...] = 0
        self.cg = [np.zeros((5, 5)), np.zeros((5, 5))]
        self.cg[0][::2, ::2], self.cg[1][::2, ::2] = ref.warped(2, 2, seed=1 + v)
        self.cg[0][2, 2] += few
        X, Y = ref.warped(2, 1, seed=1 + v)
        X[1, 1] += few
        F = ref.fill(ref.xyz(X, Y), 1, 1)
        self.filled = list(ref.lonlat(F))
        self.cart = ref.xyz(self.XG, self.YG)
        self.field = mdsref.values(2, (3, 2, 3), 7. + v)
        self.field[1, 0, 1] += few
        self.case = obcs.Case(3, 3, 2, 2, times=(1, 72), depths=2, seed=1 + v)
        self.index = [1, -1]
        os.makedirs(d, exist_ok=True)
        for name, g in (('parent', self.parent), ('a', self.a), ('b', self.b), ('far', self.far),
                        ('partial', self.partial)):
            ni, nj = g['XC'].shape
            ref.put(self.path(name), ref.pack(g, ni, nj))
        dirty = bytearray(ref.pack(self.a, 2, 2))
        dirty[8 * 8:8 * 8 + 8] = b'\x3f\xf0\0\0\0\0\0\0'
        ref.put(self.path('dirty'), bytes(dirty))
        ref.put(self.path('short'), bytes(dirty)[:-9])
        for k, n in (('XG', 7), ('YC', 8)):
            f = mdsref.values(1, (2, 3), n + v)
            f[0, 1] += few
            mdsref.write(self.path(k), f)
        mdsref.write(self.path('F'), self.field, it=3, prec='float32', timestep=3,
                     extra=" simulation = {{ 'run {0}' }};\n fldList = {{ 'A{0}' 'B{0}' }};\n".format(v))
        self.case.write_results(self.path('run'), fields=('T', 'Eta', 'U', 'V'), offset=1000. * v + few)

    def path(self, *n):
        return os.path.join(self.d, *n)

    def inputs(self):
        """Everything there is, besides output."""
        out = [sg.snapshot(v) for k, v in sorted(vars(self).items()) if k not in ('case', 'given', 'tag')]
        out += [sg.snapshot(v) for v in (self.case.parent, self.case.region, self.case.pg, self.case.rg)]
        return out + list(self.files())

    def files(self):
        for p, _, files in sorted(os.walk(self.d)):
            if not os.path.basename(p).startswith('out'):
                for f in sorted(files):
                    yield os.path.join(p, f), open(os.path.join(p, f), 'rb').read()


def corners(g):
    return dict(lon1=g['XG'][0, -1], lat1=g['YG'][0, -1], lon2=g['XG'][-1, 0], lat2=g['YG'][-1, 0])


def op_mkgrid(w, out, **k):
    return sg.mkgrid.mkgrid(False, lon1=10. + w.shift, lat1=5., lon2=14. + w.shift, lat2=1., lon_subscale=2, lat_subscale=3, **k)


def op_mkgrid_small(w, out):
    return sg.mkgrid.mkgrid(False, lon1=200.02 + w.shift, lat1=-60.01, lon2=200. + w.shift, lat2=-60.,
                            lon_subscale=2, lat_subscale=1)


def op_mkgrid_pole(w, out):
    return sg.mkgrid.mkgrid(False, lon1=0., lat1=90., lon2=3. + w.shift, lat2=87., lon_subscale=2, lat_subscale=1)


def op_regrid(w, out):
    return sg.regrid.regrid(mitgrid_matrices=w.parent, lon_subscale=1, lat_subscale=2, **corners(w.parent))


def op_regrid_turned(w, out):
    return sg.regrid.regrid(mitgrid_matrices=w.turned, lon_subscale=2, lat_subscale=1, **corners(w.parent))


def op_regrid_fortran(w, out):
    return sg.regrid.regrid(mitgrid_matrices=w.fortran, lon_subscale=1, lat_subscale=2, **corners(w.parent))


def op_regrid_file(w, out):
    return sg.regrid.regrid(True, True, mitgridfile=w.path('parent'), ni=3, nj=2, lon_subscale=1,
                            lat_subscale=1, **corners(w.parent))


def op_regrid_small(w, out):
    return sg.regrid.regrid(mitgrid_matrices=w.small, lon_subscale=2, lat_subscale=1, **corners(w.small))


def op_regrid_degenerate(w, out):
    c = corners(w.parent)
    c.update(lon2=c['lon1'], lat2=c['lat1'])
    return sg.regrid.regrid(mitgrid_matrices=w.parent, lon_subscale=1, lat_subscale=1, **c)


def op_addfringe(w, out):
    return sg.addfringe.addfringe(tilea=w.path('partial'), nia=2, nja=2, tileb=w.path('b'), nib=1, njb=2)


def op_stitch(w, out):
    return sg.stitch.stitch(tilea=w.path('b'), nia=1, nja=2, tileb=w.path('a'), nib=2, njb=2)


def op_stitch_far(w, out):
    return sg.stitch.stitch(tilea=w.path('far'), nia=2, nja=2, tileb=w.path('a'), nib=2, njb=2)


def op_read(w, out):
    return sg.gridio.read_mitgridfile(w.path('a'), 2, 2, True, True)


def op_read_dirty(w, out):
    return sg.gridio.read_mitgridfile(w.path('dirty'), 2, 2, True)


def op_read_short(w, out):
    return sg.gridio.read_mitgridfile(w.path('short'), 2, 2)


def op_write(w, out):
    return sg.gridio.write_mitgridfile(os.path.join(out, w.tag + 'g'), w.parent, 3, 2)


def op_matchedges(w, out):
    return sg.matchedges.matchedges(w.a['XG'], w.a['YG'], w.b['XG'], w.b['YG'], sg.GEOD)


def op_nearest(w, out):
    return sg.util.nearest(w.XG[1, 0], w.YG[1, 0] + .9, w.XG, w.YG, sg.GEOD)


def op_areas(w, out):
    return sg.util.squad_uarea(w.cart), sg.util.pquad_uarea(w.cart)


def op_fill(w, out):
    return sg.computegrid.fill(w.cg[0], w.cg[1], 0, 4, 0, 4, 1, 1, sg.GEOD)


def op_edges(w, out):
    e = sg.computegrid.edges(w.filled[0], w.filled[1], 0, 4, 0, 2, sg.GEOD)
    return e, sg.computegrid.areas(w.filled[0], w.filled[1], e[0], e[1], sg.GEOD)


def op_wrmds(w, out):
    return sg.mds.wrmds(os.path.join(out, w.tag + 'F'), w.field, itr=5, dataprec='float64', ndims=3, times=[1., 2.],
                        fields=['A', 'B'])


def op_rdmds(w, out):
    return sg.mds.rdmds(w.path('F'), 3, returnmeta=True)


def op_rdmds_part(w, out):
    return sg.mds.rdmds(w.path('F'), np.nan, rec=[1], lev=[0, 2], region=(0, 2, 1, 2), returnmeta=True)


def op_rdmds_none(w, out):
    return sg.mds.rdmds(w.path('G'))


def op_mds2mitgrid(w, out):
    return sg.mds2mitgrid.mds2mitgrid(w.d)


def op_getobcs(w, out):
    return sg.getobcs.getobcs(parent_mitgrid_matrices=w.case.parent, regional_mitgrid_matrices=w.case.region,
                              parent_resultsdir=w.path('run'), resultsdir=out)


def op_getobcs_index(w, out):
    return sg.getobcs.getobcs(parent_mitgrid_matrices=w.case.parent, regional_mitgrid_matrices=w.case.region,
                              parent_resultsdir=w.path('run'), resultsdir=out, OB_Jnorth=w.index,
                              OB_Jsouth=np.array([0, 0]), OB_Iwest=(1, 1), OB_Ieast=0)


OPS = {n[3:]: f for n, f in globals().items() if n.startswith('op_')}
CORE = ['mkgrid', 'mkgrid_pole', 'regrid_turned', 'regrid_degenerate', 'addfringe', 'stitch', 'read_dirty',
        'write', 'fill', 'rdmds_part', 'getobcs']


def surroundings():
    """What a library shouldn't change in the process."""
    err = np.geterr()
    probe = []
    for e in ('divide', 'invalid', 'over', 'under'):
        probe.append((e, err[e]))
    return {'numpy error handling': probe, 'error callback': np.geterrcall(), 'working directory': os.getcwd(),
            'warning filters': list(warnings.filters), 'print options': sorted(np.get_printoptions().items()),
            'environment': dict(os.environ), 'sys.argv': list(sys.argv),
            'umask': _umask(), 'random state': sg.snapshot(np.random.get_state()),
            'recursion limit': sys.getrecursionlimit(), 'path': list(sys.path)}


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def outcome(o, out, tag=''):
    """Comparable form of everything an operation did."""
    files = {}
    for f in sorted(os.listdir(out)):
        if f.startswith(tag) and not f.endswith('.nc'):
            files[f[len(tag):]] = open(os.path.join(out, f), 'rb').read()
    # (the text of a message may name paths)
    return ('returned', sg.snapshot(o.value), files) if o.ok else ('raised', type(o.exc).__name__, files)


_alone = {}


def alone(ch, name, variant=0):
    """The operation as the first thing done in a process."""
    if (name, variant) not in _alone:
        def go():
            w = World(ch.tmp('alone-{}-{}'.format(name, variant)), variant)
            out = w.path('out')
            os.makedirs(out)
            os.chdir(w.d)
            return outcome(ch.call(OPS[name], w, out), out)
        r = ch.in_child(go)
        if r[0] != 'ok':
            ch.fail('{} by itself: {}'.format(name, r))
        _alone[name, variant] = r[1]
    return _alone[name, variant]


def arrays(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from arrays(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays(v)


def history(names, depth, scribble, rewrite=False):
    def h(ch):
        changes = ch.choose('files rewritten, with other values, before operation', depth) if rewrite else 0
        seq = [ch.choose('operation {}'.format(n + 1), names) for n in range(depth)]
        other = ch.choose('values that differ', [1, 2]) if changes else 0
        over, mode = ch.choose('caller overwrites results, has numpy errors',
                               [('no', 'warn'), ('yes', 'raise')] if scribble else [('no', 'warn')])
        ch.commit()
        for n, name in enumerate(seq):
            alone(ch, name, other if changes and n >= changes else 0)
        w = World(ch.tmp('w'))
        kept = []
        with np.errstate(**({} if mode == 'warn' else dict(divide='raise', over='raise'))):
            before = surroundings()
            for n, name in enumerate(seq):
                if changes and n == changes:
                    w = World(w.d, other)       # (same names, other values)
                want = alone(ch, name, other if changes and n >= changes else 0)
                out = w.path('out{}'.format(n))
                os.makedirs(out)
                o = ch.call(OPS[name], w, out)
                got = outcome(o, out)
                ch.check(got[0] == want[0], '{} {} by itself, but after {} it {}', name, want[0], seq[:n], o)
                ch.check(got == want, '{} gives another result after {} than by itself', name, seq[:n])
                ch.check(w.inputs() == w.given, '{} changed its inputs', name)
                after = surroundings()
                for k in before:
                    ch.check(before[k] == after[k], '{} changed: {} (was {!r:.200}, is {!r:.200})', name, k,
                             before[k], after[k])
                for m, (whose, snap, value) in enumerate(kept):
                    ch.check(sg.snapshot(value) == snap, '{} changed the result of the earlier {}', name, whose)
                if over == 'yes':
                    # what the caller does to a result is nobody else's business
                    for a in arrays(o.value):
                        if a.flags.writeable:
                            a[...] = 77
                    ch.check(w.inputs() == w.given, 'results of {} share memory with its inputs', name)
                kept.append((name, sg.snapshot(o.value), o.value))
                ch.state(seq[:n + 1], over, mode, changes, other)
    return h


def scenarios(tier):
    if tier == 'thorough':
        return [('all pairs', history(sorted(OPS), 2, True, True)), ('triples', history(CORE, 3, True, True)),
                ('all triples', history(sorted(OPS), 3, False))]
    return [('all pairs', history(sorted(OPS), 2, True, True)), ('triples', history(CORE, 3, False, True))]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P14', 'model_checking', scenarios,
        'all histories of {} operations (failing ones included) up to the given length, with and without '
        'other data put in the same files in between, the caller overwriting results and with numpy errors raising'.format(len(OPS)),
        ['a fresh process is a fork before the first operation, after import'],
        {'quick': 'all histories of length 2, of 11 operations of length 3',
         'thorough': 'all histories of length 3'}))
