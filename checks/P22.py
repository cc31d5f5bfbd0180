"""getobcs: what earlier runs, complete or not, left in the results directory makes no difference."""
import os
import sys

import numpy as np

from checks.P21 import KEY, verify
from mc import engine, obcs, ref, sg

FIELDS = ('T', 'U', 'V')
STEPS = {}


def regular(ni, nj, lon, lat, d):
    return [np.array(x) for x in np.meshgrid(lon + d * np.arange(ni + 1), lat + d * np.arange(nj + 1), indexing='ij')]


def moved(case, what):
    """The same numbers of points, but other points."""
    XG, YG = case.rg
    c = obcs.Case(case.nip, case.njp, case.ni, case.nj, times=case.times, depths=case.depths)
    if what == 'region elsewhere':
        c.rg = XG + 2.7, YG + 1.1
    elif what == 'region turned':
        c.rg = ref.rotate(XG, YG, 2)
    elif what == 'region nudged':               # by 10 m in one corner point
        XG = XG.copy()
        XG[-1, 0] += 1e-4
        c.rg = XG, YG
    elif what == 'region, centres alike':
        YG = YG.copy()
        YG[0, 1] += .2
        c.rg = XG, YG
    elif what == 'parent elsewhere':
        c.pg = c.pg[0] - .9, c.pg[1] + 2
    elif what == 'region north':
        c.rg = XG, YG + .7
    elif what == 'parent north':
        c.pg = c.pg[0], c.pg[1] + 1.5
    elif what == 'parent east':
        c.pg = c.pg[0] + 1.5, c.pg[1]
    elif what == 'parent turned':
        c.pg = ref.rotate(*c.pg, 2)
    elif what.startswith('meridians'):          # the same longitudes, exactly
        c.pg = regular(case.nip, case.njp, -40., 10. + .4 * what.endswith('parent north'), 3.)
        c.rg = regular(case.ni, case.nj, -39., 12. + .3 * what.endswith('region north'), .8)
    c.parent, c.region = ref.full(*c.pg), ref.full(*c.rg)
    if what.startswith('meridians'):
        for g in c.parent, c.region:
            g['XC'] = np.round(g['XC'], 9)
    if 'alike' in what:                         # tracer points in the same places, velocity points not
        c.region.update(XC=case.region['XC'], YC=case.region['YC'])
    return c


CONFIGS = ['base', 'region elsewhere', 'region turned', 'region nudged', 'region, centres alike', 'parent elsewhere',
           'parent turned', 'more times', 'deeper', 'sides', 'other sizes', 'region north', 'parent north', 'parent east',
           'meridians', 'meridians, region north', 'meridians, parent north']


def config(ch, name, n):
    """-> case, run directory, index vectors"""
    case = obcs.Case(2, 2, 3, 3, times=(0, 10), depths=1)
    vec = {}
    if name == 'more times':
        case = obcs.Case(2, 2, 3, 3, times=(0, 10, 20), depths=1)
    elif name == 'deeper':
        case = obcs.Case(2, 2, 3, 3, times=(0,), depths=3)
    elif name == 'sides':
        vec = {'N': [1, -1, 2], 'E': [0], 'W': [2, 2, 1]}
    elif name == 'other sizes':
        case = obcs.Case(3, 2, 2, 4, times=(0, 10), depths=1)
    elif name != 'base':
        case = moved(case, name)
    run = ch.tmp('run{}'.format(n))
    case.write_results(run, FIELDS)
    return case, run, vec


def call(case, run, vec, res):
    return lambda: sg.getobcs.getobcs(
        parent_mitgrid_matrices=case.parent, regional_mitgrid_matrices=case.region, parent_resultsdir=run,
        resultsdir=res, **{KEY[s]: v for s, v in vec.items()})


def judge(ch, name, n, res):
    case, run, vec = config(ch, name, n)
    ch.must('getobcs ({})'.format(name), call(case, run, vec, res))
    return case, vec


def off(vec):
    return ['OB' + s + f.lower() for s, v in vec.items() if not any(v) for f in FIELDS]


def histories(depth, names):
    def h(ch):
        seq = [ch.choose('run {}'.format(k + 1), names) for k in range(depth)]
        ch.commit()
        res = ch.tmp('res')
        for n, name in enumerate(seq):
            case, vec = judge(ch, name, n, res)
            verify(ch, case, res, FIELDS, vec, others=off(vec))
            ch.state(seq[:n + 1])
    return h


def point(deltas):
    """A run, then another with any one coordinate of any one point of either grid changed."""
    def h(ch):
        which = ch.choose('grid', ['region', 'parent'])
        axis = ch.choose('coordinate', [0, 1])
        n = 4 if which == 'region' else 3
        at = ch.choose('i', n), ch.choose('j', n)
        by = ch.choose('degrees', deltas)
        ch.commit()
        res = ch.tmp('res')
        case, run, vec = config(ch, 'base', 0)
        ch.must('getobcs', call(case, run, vec, res))
        other = obcs.Case(2, 2, 3, 3, times=(0, 10), depths=1)
        g = [x.copy() for x in (other.rg if which == 'region' else other.pg)]
        g[axis][at] += by
        if which == 'region':
            other.rg, other.region = g, ref.full(*g)
        else:
            other.pg, other.parent = g, ref.full(*g)
        ch.must('getobcs', call(other, run, vec, res))
        verify(ch, other, res, FIELDS, vec)
        ch.state(which, axis, at, by)
    return h


def traced(fn, visit):
    """fn(), calling visit() before every line of getobcs itself (xESMF's files are its business)."""
    names = ('getobcs.py',)

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.endswith(names):
            return None
        if event == 'line':
            visit()
        return tracer
    sys.settrace(tracer)
    try:
        return fn()
    finally:
        sys.settrace(None)


def ondisk(res):
    if not os.path.isdir(res):
        return None
    return [(e.name, e.stat().st_size, e.stat().st_mtime_ns) for e in os.scandir(res)]


def crash_points(ch, name):
    """Number of the first step in each state of the directory: dying leaves nothing but that."""
    if name not in STEPS:
        case, run, vec = config(ch, name, 'count')
        res = ch.tmp('rescount')
        seen, steps, n = [], [], [0]

        def visit():
            n[0] += 1
            state = ondisk(res)
            if not seen or seen[-1] != state:
                seen.append(state)
                steps.append(n[0])
        traced(call(case, run, vec, res), visit)
        STEPS[name] = steps
    return STEPS[name]


def interrupted(pairs):
    """A run dies before a step of its code; then another one, or the same, is made."""
    def h(ch):
        first, then = ch.choose('runs', pairs)
        k = ch.choose('dies in state', len(crash_points(ch, first)))
        at = STEPS[first][k]
        ch.commit()
        res = ch.tmp('res')
        case, run, vec = config(ch, first, 0)
        n = [0]

        def visit():
            n[0] += 1
            if n[0] == at:
                os._exit(77)
        r = ch.in_child(lambda: traced(call(case, run, vec, res), visit))
        ch.check(r == ('exit', 77), 'did not get to step {}: {}', at, r)
        left = [e[:2] for e in sorted(ondisk(res) or [])]
        case, vec = judge(ch, then, 1, res)
        verify(ch, case, res, FIELDS, vec, others=off(vec))
        ch.state(first, then, left)
    return h


def rubbish(ch):
    """Previous boundary files of any length, and other files, in the directory."""
    size = ch.choose('length', [0, 1, 8, 100, 143, 144, 145, 1000])
    name = ch.choose('files', ['OBNt', 'OBWv', 'all', 'other'])
    ch.commit()
    res = ch.tmp('res')
    os.mkdir(res)
    names = {'all': ['OB' + s + f.lower() for s in 'NSEW' for f in FIELDS],
             'other': ['OBNs', 'OBNuice', 'XC.meta', 'bilinear.nc', 'x']}.get(name, [name])
    for f in names:
        ref.put(os.path.join(res, f), b'\x40' * size)
    case, vec = judge(ch, 'base', 0, res)
    others = names if name == 'other' else []
    verify(ch, case, res, FIELDS, vec, others=others)
    for f in others:
        ch.check(open(os.path.join(res, f), 'rb').read() == b'\x40' * size, '{} was changed', f)
    ch.state(size, name)


def scenarios(tier):
    pairs = [('base', 'base'), ('base', 'region nudged'), ('parent turned', 'base')]
    if tier == 'thorough':
        return [('histories', histories(3, CONFIGS)),
                ('one point', point([.3, -.01, 1e-4, 1e-6])), ('interrupted', interrupted(pairs + [('base', 'parent elsewhere'), ('sides', 'base'), ('deeper', 'base')])),
                ('rubbish', rubbish)]
    return [('histories', histories(2, CONFIGS)), ('one point', point([.3, 1e-6])), ('interrupted', interrupted(pairs)), ('rubbish', rubbish)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P22', 'model_checking', scenarios,
        'all histories of runs for 17 combinations of grids, results and sides into one directory; any one coordinate changed between two runs; a run '
        'killed in every state of the directory it goes through, then another; leftover files of every length',
        ['xESMF (not installed) is replaced by a stand-in that reuses weight files as xESMF does',
         'weight files are written by xESMF: that they are complete if they exist is its business'],
        {'quick': 'histories of two runs', 'thorough': 'histories of three'}))
