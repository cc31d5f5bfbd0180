"""The same request gives the same result in every environment: orders in which directories are listed,
variables, locales, hash seeds, ways to start Python, rights; and nothing is left open."""
import gc
import hashlib
import itertools
import json
import os
import subprocess
import sys
import tempfile
import threading

import numpy as np

from checks import P14
from mc import engine, mdsref, obcs, ref, sg

# -- orders in which a file system may list a directory ------------------------------------------


class Listed:
    """What os.scandir returns, in an order of our own."""

    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class Order:
    """While in force, directories are listed in a certain order: of each kind of file (by extension), the
    k-th of every n by perm; kinds one after the other, either way, or mixed; the same or the opposite at every
    other listing."""

    def __init__(self, perm, kinds, turn):
        self.perm, self.kinds, self.turn, self.count = perm, kinds, turn, 0

    def order(self, items, name):
        self.count += 1
        n = len(self.perm)
        groups = {}
        for x in sorted(items, key=name):
            groups.setdefault(os.path.splitext(name(x))[1], []).append(x)
        out = []
        for k, g in enumerate(groups[e] for e in sorted(groups)):
            g = [g[i] for i in sorted(range(len(g)), key=lambda i: (i // n, self.perm[i % n]))]
            out.append(g[::-1] if k and self.kinds == 'opposite' else g)
        if self.kinds == 'mixed':
            out = [x for xs in itertools.zip_longest(*out) for x in xs if x is not None]
        else:
            out = [x for g in out for x in g]
        return out[::-1] if self.turn and self.count % 2 == 0 else out

    def __enter__(self):
        self.real = os.scandir, os.listdir
        scandir, listdir = self.real

        def scan(*a):
            with scandir(*a) as it:
                return Listed(self.order(list(it), lambda e: os.fsdecode(e.name)))
        os.scandir = scan
        os.listdir = lambda *a: self.order(listdir(*a), os.fsdecode)
        return self

    def __exit__(self, *a):
        os.scandir, os.listdir = self.real


def orders(ch, n):
    perm = ch.choose('order', list(itertools.permutations(range(n))))
    return perm, ch.choose('other files', ['alike', 'opposite', 'mixed']), ch.flag('alternating')


def either(ch, fn, how, files=None):
    """fn now, and with directories listed that way: the same."""
    want = ch.call(fn)
    w = want.ok, sg.snapshot(want.value), type(want.exc), files and files()
    with Order(*how):
        o = ch.call(fn)
    got = o.ok, sg.snapshot(o.value), type(o.exc), files and files()
    ch.check(got == w, 'listed in another order {}: {}, otherwise {}', how, o, want)
    return want


def save_tiles(base, a, layout, skip=(), **kw):
    ny, nx = a.shape[-2:]
    dx, dy = nx // layout[0], ny // layout[1]
    n = 0
    for tj in range(layout[1]):
        for ti in range(layout[0]):
            if n not in skip:
                box = [(0, d) for d in a.shape[1:-2]] + [(tj * dy, tj * dy + dy), (ti * dx, ti * dx + dx)]
                mdsref.write(base, a[..., tj * dy:tj * dy + dy, ti * dx:ti * dx + dx], tile=box, gdims=a.shape[1:],
                             suffix='.{:03d}.{:03d}'.format(ti + 1, tj + 1), **kw)
            n += 1


def tiled(top):
    """rdmds: tiles, iterations."""
    def h(ch):
        layout = ch.choose('tiles', [(2, 1), (1, 2), (2, 2), (3, 1), (4, 1)])
        n = layout[0] * layout[1]
        its = ch.choose('iterations', [None, (3,), (0, 10)] + [(2, 10, 1000000000)] * (n * 3 <= top))
        if n * len(its or '1') > top:
            raise engine.Skip()
        skip = ch.choose('tile missing', [(), (0,), (n - 1,)])
        how = orders(ch, n * len(its or '1') - len(skip) * len(its or '1'))
        ch.commit()
        a = mdsref.values(2, (2, 4, 12) if n != 5 else (2, 5, 5))
        for k, it in enumerate(its or [None]):
            save_tiles(ch.tmp('F'), a + 1000. * k, layout, skip, it=it, timestep=it, interval=None if it is None else (it, it + 1.))
        ch.state(layout, its, skip, how)
        for which in (-1,) if its is None else (np.nan, np.inf, list(its), its[::-1], its[0]):
            for kw in ({}, dict(rec=[1]), dict(usememmap=True, region=(1, 5, 1, 4)), dict(lev=[1], fill_value=np.nan, astype=None)):
                o = either(ch, lambda: sg.mds.rdmds(ch.tmp('F'), which, returnmeta=True, **kw), how)
                ch.check(o.ok, 'rdmds {} {}: {}', which, kw, o)
    return h


def directories(ch):
    """rdmds: tiles in directories of their own."""
    n = ch.choose('directories', [2, 3, 4])
    how = orders(ch, n)
    ch.commit()
    a = mdsref.values(1, (2, 12))
    for t in range(n):
        d = ch.tmp('res_{}'.format(t))
        os.mkdir(d)
        w = 12 // n
        mdsref.write(os.path.join(d, 'F'), a[..., t * w:t * w + w], tile=[(0, 2), (t * w, t * w + w)], gdims=(2, 12),
                     suffix='.{:03d}.001'.format(t + 1), it=7)
    ch.state(n, how)
    for which in (7, np.nan, np.inf):
        o = either(ch, lambda: sg.mds.rdmds(ch.tmp('res_*/F'), which), how)
        ch.check(o.ok and np.array_equal(np.squeeze(o.value), a[0]), 'rdmds over directories: {}', o)


def converted(names):
    def h(ch):
        layout = ch.choose('tiles', [(1, 1), (2, 1), (1, 2)])
        some = ch.choose('fields', names)
        bad = ch.choose('damaged', [None] + list(some))
        how = orders(ch, len(some) * layout[0] * layout[1])
        ch.commit()
        os.mkdir(ch.tmp('run'))
        for k, f in enumerate(some):
            save_tiles(ch.tmp('run/' + f), mdsref.values(1, (2, 4), 100. * k), layout)
        if bad:
            os.truncate(ch.tmp('run/' + bad + '.001.001.data'), 9)
        ch.state(layout, some, bad, how)
        o = either(ch, lambda: sg.mds2mitgrid.mds2mitgrid(ch.tmp('run')), how)
        ch.check(o.ok == (bad is None), 'mds2mitgrid: {}', o)
    return h


def boundaries(ch):
    times, fields, tiles = ch.choose('times, fields, tiles', [
        ((0, 72), ('T', 'U'), None), ((5, 10, 1000000), ('T',), None), ((0, 10), ('T',), (2, 1)), ((3, 20), ('T', 'V'), None)])
    how = orders(ch, len(times) * len(fields) * (2 if tiles else 1))
    ch.commit()
    case = obcs.Case(2, 2, 2, 1, times=times, depths=2)
    case.write_results(ch.tmp('run'), fields, tiles=tiles)
    ch.state(times, fields, tiles, how)

    def written():
        d = ch.tmp('run_obcs')
        return {f: open(os.path.join(d, f), 'rb').read() for f in sorted(os.listdir(d)) if f.startswith('OB')}
    o = either(ch, lambda: sg.getobcs.getobcs(parent_mitgrid_matrices=case.parent, regional_mitgrid_matrices=case.region,
                                              parent_resultsdir=ch.tmp('run')), how, written)
    ch.check(o.ok, 'getobcs: {}', o)


# -- environments ---------------------------------------------------------------------------------

VERBOSE = ('read', 'regrid_file')       # (they print)


def every_operation(d, names):
    """{operation: digest of all it did}"""
    res = {}
    for n in names:
        w = P14.World(os.path.join(d, n))
        out = w.path('out')
        os.makedirs(out, exist_ok=True)
        try:
            o = engine.Outcome(P14.OPS[n](w, out))
        except Exception as e:
            o = engine.Outcome(exc=e)
        res[n] = digest(P14.outcome(o, out)), repr(o)
    return res


def digest(x):
    return hashlib.sha256(repr(x).encode('utf-8', 'backslashreplace')).hexdigest()


CODE = '''
import sys, json, os, warnings
sys.path[:0] = [{verif!r}]
warnings.simplefilter('ignore')
{before}
from checks import P27
{after}
with open({to!r}, 'w') as f:
    json.dump(P27.every_operation({d!r}, {names!r}), f)
'''


def environments(hashes):
    envs = [('hash seed {}'.format(s), dict(PYTHONHASHSEED=str(s))) for s in hashes]
    envs += [('locale {}'.format(x), dict(LC_ALL=x, LANG=x, LC_NUMERIC=x)) for x in ('C', 'POSIX', 'C.UTF-8', 'de_DE.UTF-8', 'tr_TR')]
    envs += [('optimised {}'.format(k), dict(PYTHONOPTIMIZE=str(k))) for k in (1, 2)]
    envs += [('time zone {}'.format(z), dict(TZ=z)) for z in ('Asia/Kathmandu', 'XXX+11')]
    envs += [('development mode', dict(PYTHONDEVMODE='1')), ('UTF-8 mode', dict(PYTHONUTF8='1')), ('no UTF-8', dict(PYTHONUTF8='0', PYTHONIOENCODING='ascii', PYTHONCOERCECLOCALE='0', LC_ALL='C')),
             ('nearly nothing', None), ('no home', dict(HOME='/nonexistent', TMPDIR='/nonexistent', XDG_CACHE_HOME='/nonexistent', XDG_CONFIG_HOME='/nonexistent')),
             ('malloc debug', dict(PYTHONMALLOC='debug')), ('narrow terminal', dict(COLUMNS='9', LINES='2', TERM='dumb')),
             ('numpy 1.13 printing', 'np.set_printoptions(legacy="1.13")'), ('short printing', 'np.set_printoptions(precision=1, threshold=1, suppress=True)'),
             ('umask 077', 'os.umask(0o77)'), ('umask 0', 'os.umask(0)'), ('no standard input', 'os.close(0)'),
             ('no standard output', 'os.close(1); sys.stdout = None'), ('no standard error', 'os.close(2); sys.stderr = None'),
             ('no collection', 'gc.disable()'), ('much collection', 'gc.set_threshold(1, 1, 1)'),
             ('numpy errors ignored', 'np.seterr(all="ignore")'), ('numpy errors raise', 'np.seterr(divide="raise", over="raise")'),
             ('decimal comma', 'locale'), ('deep in calls', 'deep'), ('in a thread', 'thread'), ('seeded', 'random.seed(7); np.random.seed(7)')]

    def h(ch):
        name, env = ch.choose('environment', envs)
        ch.commit()
        ops = [n for n in sorted(P14.OPS) if not (name == 'no standard output' and n in VERBOSE)]
        plain = {n: digest(P14.alone(ch, n)) for n in ops}
        os.mkdir(ch.tmp('there'))
        to = ch.tmp('digests')
        e = {k: v for k, v in os.environ.items() if k not in ('LC_ALL',)}
        before = after = ''
        if env is None:
            e = {'PATH': '/usr/bin:/bin'}
        elif isinstance(env, dict):
            e.update(env)
        elif env == 'locale':
            after = 'import locale\nfor l in locale.locale_alias.values():\n    try:\n        locale.setlocale(locale.LC_ALL, l)\n    except locale.Error:\n        continue\n    if locale.localeconv()["decimal_point"] == ",":\n        break\n'
        elif env == 'thread':
            after = 'import threading\nreal = P27.every_operation\n\ndef run(*a):\n    r = []\n    t = threading.Thread(target=lambda: r.append(real(*a)))\n    t.start(); t.join()\n    return r[0]\nP27.every_operation = run\n'
        elif env == 'deep':
            after = 'real = P27.every_operation\n\ndef run(*a, n=500):\n    return run(*a, n=n - 1) if n else real(*a)\nP27.every_operation = run\n'
        else:
            after = 'import gc, random, numpy as np\n' + env
        e.update(SG_REPO=sg.REPO, PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', CODE.format(
            verif=engine.VERIF, before=before, after=after, to=to, d=ch.tmp('there'), names=ops)],
            env=e, cwd=ch.scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        ch.stats['transitions'] += len(ops)
        ch.check(p.returncode == 0 and os.path.exists(to), 'in environment {}: exit status {} {}', name, p.returncode, p.stdout[-600:])
        got = json.load(open(to))
        for n in ops:
            ch.check(got[n][0] == plain[n], '{} gives another result in environment {}: {}', n, name, got[n][1])
            ch.state(name, n)
    return h


# (check, scenario, parts it is done in): requests to be refused
REFUSED = [('P01', 'misfits', 1), ('P03', 'truncated XG, YG', 4), ('P04', 'nowhere to write', 1),
           ('P10', 'degenerate', 4), ('P10', 'incomplete', 1), ('P11', 'counts', 1), ('P12', 'apart', 1), ('P16', 'missing sgmkgrid', 1),
           ('P16', 'missing sgregrid', 1), ('P16', 'missing sgaddfringe', 1), ('P16', 'missing sgstitch', 1), ('P17', 'refused', 1), ('P18', 'refused', 1),
           ('P19', 'nonsense', 1), ('P19', 'truncated', 4), ('P20', 'broken', 2), ('P21', 'refused', 1), ('P21', 'no parent grid', 2)]
MANY = [('P02', 'one term', 16), ('P03', 'truncated file', 12)]
PART = '''
import sys, json, warnings
sys.path[:0] = [{verif!r}]
warnings.simplefilter('ignore')
import importlib
from mc import engine
h = dict(importlib.import_module('checks.' + {check!r}).scenarios('quick'))[{name!r}]
try:
    r = engine.explore_worker({name!r}, h, {part}, {parts}, engine.known_findings({check!r}), 40, None)
    with open({to!r}, 'w') as f:
        json.dump([r['stats']['executions'], r['stats']['transitions'], r['violations']], f)
finally:
    engine.cleanup()
'''


def optimised(levels, which):
    """Requests that can't be met are refused by python -O, too (it leaves out what is asserted)."""
    def h(ch):
        level = ch.choose('optimised', levels)
        check, name, parts = ch.choose('check', which)
        part = ch.choose('part', parts)
        ch.commit()
        to = ch.tmp('result')
        p = subprocess.run([sys.executable, '-W', 'ignore', '-' + 'O' * level, '-c', PART.format(
            verif=engine.VERIF, check=check, name=name, part=part, parts=parts, to=to)], env=dict(os.environ, SG_REPO=sg.REPO),
            cwd=ch.scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ch.check(p.returncode == 0 and os.path.exists(to), '{} {}: {}', check, name, p.stdout[-600:])
        n, calls, bad = json.load(open(to))
        ch.stats['transitions'] += calls
        for k in range(n):
            ch.state(level, check, name, part, k)
        ch.check(n > 0 or parts > 1, 'nothing done')
        ch.check(not bad, 'python -{}: {} {}: {}', 'O' * level, check, name, bad and (bad[0]['message'][:600], bad[0]['trace']))
    return h


def rights(ch):
    """A user who may only read the input and write the output."""
    name = ch.choose('operation', sorted(P14.OPS))
    ch.commit()
    want = digest(P14.alone(ch, name))
    w = P14.World(ch.tmp('w'))
    out = w.path('out')
    os.makedirs(out)
    for p, dirs, files in os.walk(w.d):
        os.chmod(p, 0o555)
        for f in files:
            os.chmod(os.path.join(p, f), 0o444)
    os.chmod(out, 0o777)
    os.chmod(ch.scratch, 0o755)
    d = w.d

    def run():
        # nobody; the directories above may be closed to it, so go there first
        os.chdir(d)
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
        w.d = '.'
        try:
            o = engine.Outcome(P14.OPS[name](w, './out'))
        except Exception as e:
            o = engine.Outcome(exc=e)
        return digest(P14.outcome(o, './out')), repr(o)
    r = ch.in_child(run)
    ch.state(name)
    ch.check(r[0] == 'ok' and r[1][0] == want, '{} with read-only input: {}', name, r)


# -- what is left open ----------------------------------------------------------------------------


def more_ops():
    """Operations that open many files."""
    def tiles_(w, out, **kw):
        save_tiles(os.path.join(out, 'M'), mdsref.values(2, (2, 6, 8)), (8, 6), it=4)
        return lambda: sg.mds.rdmds(os.path.join(out, 'M'), 4, **kw)

    def times(w, out, **kw):
        for t in range(40):
            mdsref.write(os.path.join(out, 'N'), mdsref.values(1, (2, 3)), it=t)
        return lambda: sg.mds.rdmds(os.path.join(out, 'N'), np.nan, **kw)

    def broken(w, out, **kw):
        save_tiles(os.path.join(out, 'B'), mdsref.values(2, (2, 2)), (2, 1))
        os.truncate(os.path.join(out, 'B.002.001.data'), 11)
        return lambda: sg.mds.rdmds(os.path.join(out, 'B'), **kw)

    def meta(w, out, **kw):
        ref.put(os.path.join(out, 'C.meta'), b' dimList = [ 3, 1, 3, 2, 1')
        ref.put(os.path.join(out, 'C.data'), b'x' * 48)
        return lambda: sg.mds.rdmds(os.path.join(out, 'C'), **kw)

    def unwritable(w, out, **kw):
        os.mkdir(os.path.join(out, 'W.data'))
        return lambda: sg.mds.wrmds(os.path.join(out, 'W'), np.zeros((2, 3)))

    def coordinates(w, out, **kw):
        n = {}
        for f, v in (('xg', w.XG), ('yg', w.YG)):
            n[f + '_file'] = ref.put(os.path.join(out, f + kw['ext']), '\n'.join(','.join(repr(float(x)) for x in r) for r in v).encode()
                                     if kw['ext'] == '.csv' else v.T.astype('>f8').tobytes()[:None if kw['ext'] else 9])
        return lambda: sg.regrid.regrid(ni=3, nj=2, lon_subscale=1, lat_subscale=1, **P14.corners(w.parent), **n)

    def boundaries_(w, out, **kw):
        c = w.case
        k = dict(parent_mitgridfile=ref.put(os.path.join(out, 'p'), ref.pack(c.parent, c.nip, c.njp)), ni_parent=c.nip, nj_parent=c.njp,
                 regional_mitgridfile=ref.put(os.path.join(out, 'r'), ref.pack(c.region, c.ni, c.nj)), ni_regional=c.ni, nj_regional=c.nj,
                 parent_resultsdir=w.path('run'), resultsdir=out)
        if kw.get('bad') == 'target':
            os.mkdir(os.path.join(out, 'OBEt'))
        elif kw.get('bad') == 'results':
            os.truncate(w.path('run', 'T.0000000072.data'), 11)
        return lambda: sg.getobcs.getobcs(**k)

    ops = {'coordinates csv': (coordinates, dict(ext='.csv')), 'coordinates bin': (coordinates, dict(ext='.bin')),
           'coordinates short': (coordinates, dict(ext='')), 'boundaries': (boundaries_, {}), 'boundaries target': (boundaries_, dict(bad='target')),
           'boundaries results': (boundaries_, dict(bad='results')), 'not writable': (unwritable, {})}
    for f in (tiles_, times, broken, meta):
        for k, kw in (('', {}), (' mapped', dict(usememmap=True)), (' record', dict(rec=[0])), (' level', dict(rec=0, lev=[])), (' region', dict(region=(0, 1, 0, 1)))):
            ops[f.__name__ + k] = f, kw
    return ops


MORE = more_ops()


def fds():
    return sorted(os.listdir('/proc/self/fd'))


def left(ch):
    """Descriptors, threads, temporary files, after operations that succeed and that fail."""
    name = ch.choose('operation', sorted(P14.OPS) + sorted(MORE))
    times = ch.choose('times', [1, 3])
    ch.commit()
    w = P14.World(ch.tmp('w'))
    tmp = ch.tmp('temp')
    os.mkdir(tmp)

    def run():
        os.environ.update(TMPDIR=tmp, HOME=tmp, XDG_CACHE_HOME=tmp)
        tempfile.tempdir = None
        os.chdir(tmp)
        for k in range(times + 1):                  # (what an import opens at the first use doesn't count)
            out = w.path('out{}'.format(k))
            os.makedirs(out, exist_ok=True)
            if name in MORE:
                fn, kw = MORE[name]
                go = fn(w, out, **kw)
            else:
                go = lambda: P14.OPS[name](w, out)
            if k == 1:
                gc.collect()
                before = fds(), threading.active_count()
            o = ch.call(go)
            del o, go
        gc.collect()
        return before, (fds(), threading.active_count()), sorted(os.listdir(tmp)), os.getcwd()
    r = ch.in_child(run)
    ch.state(name, times)
    ch.check(r[0] == 'ok', '{}: {}', name, r)
    before, after, temp, cwd = r[1]
    ch.check(len(after[0]) <= len(before[0]), '{}: {} files left open', name, len(after[0]) - len(before[0]))
    ch.check(after[1] <= before[1], '{}: threads left', name)
    ch.check(not temp, '{}: temporary files left: {}', name, temp)


def scenarios(tier):
    if tier == 'thorough':
        return [('tiles', tiled(6)), ('directories', directories), ('mds2mitgrid', converted([('XC', 'YG', 'RAC'), ('DXG', 'YC'), ('RAZ',)])),
                ('getobcs', boundaries), ('environments', environments(range(40))), ('optimised', optimised([1, 2], REFUSED + MANY)), ('rights', rights), ('left open', left)]
    return [('tiles', tiled(4)), ('directories', directories), ('mds2mitgrid', converted([('XC', 'YG'), ('DXG',)])),
            ('getobcs', boundaries), ('environments', environments(range(6))), ('optimised', optimised([1], REFUSED)), ('rights', rights), ('left open', left)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P27', 'model_checking', scenarios,
        'all orders of listing the files of a directory (each kind alike, opposite or mixed, alternating from listing to listing) x tiles, '
        'iterations, directories, fields; {} operations x environments; descriptors, threads and temporary files after {} operations'.format(
            len(P14.OPS), len(P14.OPS) + len(MORE)),
        ['orders are put in force at os.scandir and os.listdir'],
        {'quick': 'up to 4 files of a kind, 6 hash seeds', 'thorough': 'up to 6 files of a kind, 40 hash seeds'}))
