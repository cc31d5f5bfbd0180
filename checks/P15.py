"""Operations running in two threads at once give what each gives by itself.

The scheduler owns both threads: simplegrid's own lines of code are the scheduling points,
and only one thread runs at any time.  Explored are all schedules with one preemption (A is
stopped at a point, B runs to its end, A goes on), and with two (A is stopped at a point, B
runs up to a point, A to its end, then B to its end)."""
import copy
import os
import sys
import threading

from checks import P14
from checks.P14 import OPS, World, outcome, alone
from mc import engine, sg


def op_relative(w, out):
    """Files named relative to the working directory."""
    return (sg.gridio.read_mitgridfile('b', 1, 2), sg.mds.rdmds('F', 3, rec=0, returnmeta=True), os.getcwd() == w.d)


OPS['relative'] = op_relative

ROOT = os.path.realpath(sg.REPO) + os.sep
WAIT = 30                       # for a thread to end
PATIENCE = 3                    # for one that may be waiting for the other


def here(frame):
    return os.path.realpath(frame.f_code.co_filename).startswith(ROOT)


class Thread(threading.Thread):
    """Runs fn; at its n-th scheduling point (n from 0) hands over to `pause`."""

    def __init__(self, fn, stop=None, pause=None, record=None):
        super().__init__(daemon=True)
        self.fn, self.stop, self.pause, self.record = fn, stop, pause, record
        self.n = 0
        self.outcome = None
        self.files = {}

    def local(self, frame, event, arg):
        if event == 'line':
            if self.record is not None:
                self.record.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno,
                                    frame.f_code.co_name))
            if self.n == self.stop:
                sys.settrace(None)          # (nothing more to decide in this thread)
                self.stop = -1
                self.pause()
                return None
            if self.stop == -1:
                return None
            self.n += 1
        return self.local

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f not in self.files:
            self.files[f] = here(frame)
        return self.local if self.files[f] else None

    def run(self):
        if self.stop is not None or self.record is not None:
            sys.settrace(self.trace)
        try:
            self.outcome = engine.Outcome(self.fn())
        except BaseException as e:
            self.outcome = engine.Outcome(exc=e)
        finally:
            sys.settrace(None)


_points = {}


def points(ch, name, detail):
    """Numbers of the scheduling points of an operation: first and last time each line runs,
    or the first time each function is entered."""
    if name not in _points:
        def go():
            w = World(ch.tmp('points-' + name))
            out = w.path('out')
            os.makedirs(out)
            rec = []
            t = Thread(lambda: OPS[name](w, out), record=rec)
            t.start()
            t.join()
            return rec
        r = ch.in_child(go)
        if r[0] != 'ok':
            ch.fail('{} in a thread: {}'.format(name, r))
        first, last, entered = {}, {}, {}
        for n, p in enumerate(r[1]):
            first.setdefault(p, n)
            last[p] = n
            entered.setdefault((p[0], p[2]), n)
        _points[name] = {'all': list(range(len(r[1]))),
                         'lines': sorted(set(first.values()) | set(last.values())),
                         'first': sorted(first.values()), 'functions': sorted(entered.values())}
    return _points[name][detail]


def schedules(names, detail, detail2=None, variants=(0, 1), others=None, shared=False):
    def h(ch):
        a, b = ch.choose('A', names), ch.choose('B', others or names)
        v = ch.choose('data of B', variants)
        i = ch.choose('A stops at line event', points(ch, a, detail))
        j = ch.choose('B stops at line event', points(ch, b, detail2)) if detail2 else None
        ch.commit()
        want = alone(ch, a), alone(ch, b, v)
        w = World(ch.tmp('w'))
        wb = World(ch.tmp('w1'), v) if v else w
        os.chdir(w.d if b != 'relative' else wb.d)
        outs = [w.path('out{}'.format(0 if shared else n)) for n in (0, 1)]
        for o in outs:
            os.makedirs(o, exist_ok=True)
        if shared:
            w, wb = copy.copy(w), copy.copy(wb)
            w.tag, wb.tag = 'first.', 'second.'
        bstop, agone = threading.Event(), threading.Event()

        def b_pauses():
            bstop.set()
            agone.wait(PATIENCE)

        def b_body():
            try:
                return OPS[b](wb, outs[1])
            finally:
                bstop.set()
        tb = Thread(b_body, j, b_pauses)

        def a_pauses():
            tb.start()
            if j is None:
                tb.join(PATIENCE)
            else:
                bstop.wait(PATIENCE)
        ta = Thread(lambda: OPS[a](w, outs[0]), i, a_pauses)

        def both():
            ta.start()
            ta.join(WAIT)
            agone.set()
            if tb.ident is None:
                tb.start()
            tb.join(WAIT)
        ch.call(both)
        for n, (name, t) in enumerate(((a, ta), (b, tb))):
            ch.check(not t.is_alive(), '{} did not finish', name)
            ch.check(t.outcome.ok == (want[n][0] == 'returned'),
                     '{} next to {}: {} (by itself it {})', name, (b, a)[n], t.outcome, want[n][0])
            ch.check(outcome(t.outcome, outs[n], ('first.', 'second.')[n] if shared else '') == want[n],
                     '{} gives another result next to {} than by itself',
                     name, (b, a)[n])
        if shared:
            ch.check(len(os.listdir(outs[0])) == len(want[0][2]) + len(want[1][2]), 'files: {}', os.listdir(outs[0]))
        ch.check(w.inputs() == w.given and wb.inputs() == wb.given, 'inputs changed')
        ch.state(a, b, v, i, j)
    return h


SMALL = ['regrid_small', 'addfringe', 'rdmds_part']
MORE = ['regrid_small', 'addfringe', 'rdmds_part', 'mkgrid_small', 'stitch', 'write', 'read', 'getobcs', 'wrmds',
        'mkgrid_pole', 'rdmds', 'mds2mitgrid', 'stitch_far']
QUICK = ['regrid_small', 'addfringe', 'mkgrid_small', 'stitch', 'write', 'read', 'getobcs', 'wrmds', 'mds2mitgrid']
BRIEF = ['rdmds', 'wrmds', 'write', 'read_dirty', 'nearest', 'areas', 'edges']     # (few hundred lines)


def scenarios(tier):
    if tier == 'thorough':
        return [('one preemption', schedules(MORE, 'lines')),
                ('one preemption, every line event', schedules(BRIEF + SMALL + ['mds2mitgrid'], 'all', others=BRIEF + SMALL)),
                ('next to relative names', schedules(MORE, 'lines', variants=(1,), others=['relative'])),
                ('output in the same directory', schedules(['write', 'wrmds'], 'all', shared=True)),
                ('output in the same directory, two preemptions', schedules(['write', 'wrmds'], 'lines', 'lines', shared=True)),
                ('two preemptions', schedules(MORE, 'functions', 'first')),
                ('two preemptions, lines', schedules(SMALL, 'first', 'first'))]
    return [('one preemption', schedules(SMALL, 'first')),
            ('one preemption, every line event', schedules(BRIEF, 'all')),
            ('one preemption, more operations', schedules(QUICK, 'functions', variants=(0,))),
            ('next to relative names', schedules(QUICK + ['rdmds'], 'first', variants=(1,), others=['relative'])),
            ('output in the same directory', schedules(['write', 'wrmds'], 'all', shared=True)),
            ('two preemptions', schedules(['regrid_small', 'rdmds_part', 'addfringe'], 'functions', 'functions'))]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P15', 'model_checking', scenarios,
        'all schedules of two operations with one or two preemptions, at the lines of simplegrid code',
        ['a line of simplegrid code is atomic; in long operations, a line is a scheduling point the first (thorough: '
         'and last) time it runs'],
        {'quick': '3 operations: one preemption at every line; 7: at every line event; 9: at every function; 3: two '
                  'preemptions',
         'thorough': '13 operations: one preemption at every line, first and last time; two at functions x lines'}))
