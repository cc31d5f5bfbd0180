"""Writing of MDS files that is interrupted never makes up fields: old, new, or an error."""
import os
import sys

import numpy as np

from mc import engine, mdsref, obcs, ref, sg

# file sets: shape, keyword arguments
SETS = {
    'plain': ((7, 9), dict(dataprec='float64')),
    'same, other time': ((7, 9), dict(dataprec='float64', times=[1., 2.], simulation='other')),
    'turned': ((9, 7), dict(dataprec='float64')),
    'smaller': ((3, 9), dict(dataprec='float64')),
    'larger': ((14, 9), dict(dataprec='float64')),
    'single': ((7, 9), dict(dataprec='float32')),
    'twice, single': ((14, 9), dict(dataprec='float32')),
    'records': ((3, 7, 9), dict(dataprec='float64', nrecords=3)),
    'levels': ((3, 7, 9), dict(dataprec='float64', nrecords=1)),
    'fields': ((2, 7, 9), dict(dataprec='float64', nrecords=2, fields=['A', 'B'], times=[3.])),
}


def content(name, shape):
    k = sorted(SETS).index(name) + 1
    return 1000. * k + mdsref.values(1, shape)[0]


READS = {
    'all': dict(),
    'meta': dict(returnmeta=True),
    'mapped': dict(usememmap=True),
    'first record': dict(rec=0),
    'last record': dict(rec=-1),
    'region': dict(region=(1, 3, 0, 2)),
    'level': dict(lev=0),
}


def value(o):
    """What was read, in a form that can be compared."""
    if isinstance(o.value, tuple):
        arr, its, meta = o.value
        return ('meta', np.asarray(arr).shape, np.asarray(arr).astype(float).tolist(), list(its),
                sorted((k, repr(v)) for k, v in meta.items()))
    a = np.asarray(o.value)
    return (a.shape, str(a.dtype.kind), a.astype(float).tolist())


def read(ch, base, it):
    """name of read: what it gave, None if it was refused"""
    got = {}
    for name, kw in READS.items():
        o = ch.call(sg.mds.rdmds, base, *([] if it is None else [it]), **kw)
        got[name] = value(o) if o.ok else None
    return got


def sets(ch, names=None):
    names = names or list(SETS)
    before = ch.choose('there before', ['nothing'] + names)
    new = ch.choose('written', names)
    it = ch.choose('iteration', [None, 10])
    return before, new, it


ALONE = {}


def prepare(ch, before, new, it):
    """Both file sets, each by itself, and what is read of them."""
    base = ch.tmp('F')
    want = {}
    for who in (new, before):
        if who == 'nothing':
            continue
        if (who, it) in ALONE:
            want[who] = ALONE[who, it]
            continue
        alone = ch.tmp('alone')
        os.makedirs(alone, exist_ok=True)
        shape, kw = SETS[who]
        ch.must('wrmds', sg.mds.wrmds, os.path.join(alone, 'F'), content(who, shape), itr=it, **kw)
        want[who] = ALONE[who, it] = read(ch, os.path.join(alone, 'F'), it)
    if before != 'nothing':
        shape, kw = SETS[before]
        ch.must('wrmds', sg.mds.wrmds, base, content(before, shape), itr=it, **kw)
    return base, want


def judge(ch, base, it, want, before, new, what):
    got = read(ch, base, it)
    ok = []
    for name, v in got.items():
        if v is None:
            ok.append(None)
            continue
        if v == want[new][name]:
            ok.append('new')
        elif before != 'nothing' and v == want[before][name]:
            ok.append('old')
        else:
            ch.fail('{}: rdmds ({}) gives what nobody wrote: {}'.format(what, name, str(v)[:300]))
    ch.stats['checks'] += len(got)
    if all(v is None for v in got.values()):
        return 'refused'
    return '/'.join(str(v) for v in ok)


def write(base, new, it):
    shape, kw = SETS[new]
    return lambda: sg.mds.wrmds(base, content(new, shape), itr=it, **kw)


def dies_at_byte(names, step):
    """The process dies when a file has grown to n bytes."""
    def h(ch):
        before, new, it = sets(ch, names)
        n = ch.choose('dies at byte', list(range(0, 400, step)) + list(range(400, 700, 8 * step)) + [3000])
        ch.commit()
        base, want = prepare(ch, before, new, it)
        r = ch.in_child(write(base, new, it), limit=n, kill=True)
        ch.check(r[0] == 'killed' or n == 3000 or r[0] == 'ok' and n > 200, 'dying at {}: {}', n, r)
        res = judge(ch, base, it, want, before, new, '{} written over {}, died at byte {}'.format(new, before, n))
        if r[0] == 'ok':
            ch.check(set(res.split('/')) <= {'new', 'None'} and res != 'refused', 'written, but read as {}', res)
        ch.state(before, new, it, n, res)
    return h


LINES = {}


def traced(count, stop, fn):
    root = sg.simplegrid.__path__[0]

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(root):
            return None
        if event == 'line':
            count[0] += 1
            if count[0] == stop:
                os._exit(77)
        return tracer
    sys.settrace(tracer)
    try:
        return fn()
    finally:
        sys.settrace(None)


def nlines(ch, key, fn):
    if key not in LINES:
        count = [0]
        ch.call(traced, count, None, fn)
        LINES[key] = count[0]
    return LINES[key]


def dies_between(names):
    """The process dies before any line."""
    def h(ch):
        before, new, it = sets(ch, names)
        os.makedirs(ch.tmp('count'), exist_ok=True)
        lines = nlines(ch, (new, it), write(os.path.join(ch.tmp('count'), 'F'), new, it))
        n = ch.choose('dies before step', range(1, lines + 1))
        ch.commit()
        base, want = prepare(ch, before, new, it)
        r = ch.in_child(lambda: traced([0], n, write(base, new, it)))
        ch.check(r == ('exit', 77) or r[0] == 'ok', 'did not get to step {} of {}: {}', n, lines, r)
        res = judge(ch, base, it, want, before, new, '{} written over {}, died at step {}'.format(new, before, n))
        ch.state(before, new, it, n, res)
    return h


def fails_at_byte(names, step):
    """The disk is full when a file has n bytes: wrmds fails, and rdmds does not read what is left."""
    def h(ch):
        before, new, it = sets(ch, names)
        n = ch.choose('full at byte', list(range(0, 400, step)) + list(range(400, 700, 8 * step)))
        ch.commit()
        base, want = prepare(ch, before, new, it)
        r = ch.in_child(write(base, new, it), limit=n)
        res = judge(ch, base, it, want, before, new, '{} written over {}, full at byte {}'.format(new, before, n))
        if r[0] == 'ok':
            ch.check('new' in res and 'old' not in res, 'written, but read as {}', res)
        ch.state(before, new, it, n, res)
    return h


def grid_field(names, sizes):
    """One field of a grid in MDS files is rewritten: mds2mitgrid has the old or the new one, or fails."""
    return lambda ch: _grid_field(ch, names, sizes)


def _grid_field(ch, names, sizes):
    name = ch.choose('field', names)
    ni, nj = ch.choose('size', sizes)
    prec = ch.choose('precision', ['float64', 'float32'])
    after = ch.choose('precision written', ['float64', 'float32'])
    was = ch.flag('there before')
    tmp = ch.tmp('count')
    os.makedirs(tmp, exist_ok=True)
    new = 5e5 + mdsref.values(1, (nj, ni))[0]
    go = lambda d: sg.mds.wrmds(os.path.join(d, name), new, dataprec=after)
    lines = nlines(ch, 'grid', lambda: go(tmp))
    at = ch.choose('dies', [('step', n) for n in range(1, lines + 1)] + [('byte', n) for n in range(0, 560, 16)])
    ch.commit()
    d = ch.tmp('run')
    os.makedirs(d)
    old = {}
    for k, f in enumerate(ref.NAMES):
        if f != name or was:
            old[f] = 1000. * (k + 1) + mdsref.values(1, (nj, ni))
            mdsref.write(os.path.join(d, f), old[f], prec=prec)
    if at[0] == 'step':
        r = ch.in_child(lambda: traced([0], at[1], lambda: go(d)))
        ch.check(r == ('exit', 77) or r[0] == 'ok', 'did not get to {}: {}', at, r)
    else:
        r = ch.in_child(lambda: go(d), limit=at[1], kill=True)
    o = ch.call(sg.mds2mitgrid.mds2mitgrid, d)
    res = 'refused'
    if o.ok:
        grid = o.value[0]
        for f in ref.NAMES:
            cands = [old.get(f)] + ([new[None]] if f == name else [])
            g = grid[f]
            fits = []
            for c in cands:
                if c is None or g is None:
                    fits.append(c is None and g is None)
                    continue
                fits.append(g.shape[0] >= ni and g.shape[1] >= nj and ref.same(g[:ni, :nj], c[0].T)
                            and not g[ni:].any() and not g[:, nj:].any())
            ch.check(any(fits), '{} {}, died at {}: mds2mitgrid has a {} that nobody wrote: {}', name,
                     'rewritten' if was else 'written', at, f, None if g is None else g.tolist())
        res = 'read'
    ch.state(name, ni, prec, after, was, at, res)


def results(ch):
    """A result file is rewritten, or another time added: getobcs has boundaries before or after, or fails."""
    f = ch.choose('field', ['T', 'U', 'V', 'Eta'])
    what = ch.choose('written', ['again', 'next time'])
    c = obcs.Case(3, 3, 2, 2, times=(0, 10), depths=3)
    late = obcs.Case(3, 3, 2, 2, times=(0, 10, 20), depths=3)
    t = 10 if what == 'again' else 20
    a = late.data(f, t) + 3.
    if a.shape[0] == 1 and f == 'Eta':
        a = a[0]
    tmp = ch.tmp('count')
    os.makedirs(tmp, exist_ok=True)
    go = lambda d: sg.mds.wrmds(os.path.join(d, f), a, itr=t, dataprec='float64')
    lines = nlines(ch, ('result', f), lambda: go(tmp))
    at = ch.choose('dies', [('step', n) for n in range(1, lines + 1)] + [('byte', n) for n in range(0, 400, 8)] + [None])
    ch.commit()
    files = ['OB{}{}'.format(s, r.lower()) for s in 'NSEW' for r in ('T', 'U', 'V', 'Eta')]

    def run(tag, death):
        d, out = ch.tmp('run' + tag), ch.tmp('out' + tag)
        case = obcs.Case(3, 3, 2, 2, times=(0, 10), depths=3)
        case.write_results(d, fields=['T', 'U', 'V', 'Eta'])
        if what == 'next time' and f != 'T' and death != 'before':
            more = obcs.Case(3, 3, 2, 2, times=(20,), depths=3)
            more.write_results(d, fields=['T'])
        if death is None:
            go(d)
        elif death[0] == 'step':
            r = ch.in_child(lambda: traced([0], death[1], lambda: go(d)))
            ch.check(r == ('exit', 77) or r[0] == 'ok', 'did not get to {}: {}', death, r)
        elif death[0] == 'byte':
            ch.in_child(lambda: go(d), limit=death[1], kill=True)
        o = ch.call(sg.getobcs.getobcs, parent_mitgrid_matrices=c.parent, regional_mitgrid_matrices=c.region,
                    parent_resultsdir=d, resultsdir=out)
        return o, {k: open(os.path.join(out, k), 'rb').read() for k in files if os.path.exists(os.path.join(out, k))}

    ob, before = run('before', 'before')
    oa, after = run('after', None)
    ch.check(ob.ok, 'getobcs with the files of before {}', ob)
    if at is None:
        if not (what == 'next time'):
            ch.check(oa.ok and after != before, 'getobcs with the files of after {}', oa)
        ch.state(f, what, 'whole')
        return
    o, got = run('now', at)
    for k, v in got.items():
        ch.check(v == before.get(k) or v == after.get(k), '{} written {}, died at {}: {} is neither that of before nor after',
                 f, what, at, k)
    if o.ok:
        ch.check(got == before or got == after, '{} written {}, died at {}: some boundaries of before, some of after', f, what, at)
    ch.state(f, what, at, o.ok)


def scenarios(tier):
    big = tier == 'thorough'
    few = ['plain', 'same, other time', 'turned', 'smaller', 'twice, single', 'records', 'levels']
    return [('dies at byte', dies_at_byte(list(SETS) if big else few, 1 if big else 12)),
            ('dies between lines', dies_between(list(SETS) if big else few)),
            ('full at byte', fails_at_byte(list(SETS) if big else few[:5], 1 if big else 20)),
            ('field of a grid', grid_field(ref.NAMES if big else ['XC', 'RAZ', 'XG'], [(3, 2), (9, 7)] if big else [(9, 7)])), ('results', results)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P29', 'fault_enumeration', scenarios,
        'wrmds over nothing and over file sets of other shape, precision, records, metadata, killed at bytes of either file and before '
        'every traced line, or out of space at every byte; everything that reads the files afterwards',
        ['a crash of the process, not of the machine: what was written stays, in order'],
        {'quick': '7 kinds of file sets, each over each; every line, every 12th byte; three fields', 'thorough': '10 kinds; every line, every byte; all fields'}))
