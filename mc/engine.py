"""Exhaustive, bounded exploration of the real simplegrid code.

A *harness* is a plain function run(ch).  Everything in it that can go more than
one way (which grid, which corner, which tile is first, which byte a write fails
at, which thread moves next ...) is asked of the chooser, ch.choose(label,
options).  explore() enumerates *every* choice sequence of the harness, depth
first, and executes the harness - that is, the real code and the reference model
side by side - once for each of them.  There is no sampling and no cap: a run
either visits the whole tree or reports that it did not.

 - ch.choose(label, options)   a choice point (a transition of the explored tree)
 - ch.commit()                 the choices so far identify one execution; used to
                               share executions out between worker processes
 - ch.call(fn, ...)            one transition of the implementation
 - ch.state(key)               record a (model) state reached, for the statistics
 - ch.fail(msg)                property violated in this execution
 - ch.finding(key, msg)        violated in a way that may be listed in
                               /verif/known-findings.txt; a violation if it isn't
"""

import contextlib
import ctypes
import hashlib
import io
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAILFAST = os.environ.get('MC_FAILFAST') == '1'     # the first violation will do (to try many changes)
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Violation(Exception):
    pass


class Skip(Exception):
    """This execution belongs to another worker, or its inputs are out of scope."""


class Timeout(BaseException):
    """An execution ran past its horizon (not an Exception: code under test must not swallow it)."""


class Divergence(RuntimeError):
    """The harness asked different questions when a prefix was replayed."""


class Outcome:
    """Result of one call of the code under test: value, or the exception it raised."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc
        self.ok = exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)

    def __repr__(self):
        if self.ok:
            return 'returned ' + repr(self.value)[:300]
        return 'raised {}: {}'.format(type(self.exc).__name__, str(self.exc)[:200])


def known_findings(prop):
    """{key: text} of the known findings listed for a property."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith('known: '):
                head, _, text = line[len('known: '):].strip().partition(' ')
                key, _, text = text.partition(' ')
                if head == 'property=' + prop and key.startswith('key='):
                    out[key[4:]] = text
    return out


class Chooser:

    def __init__(self, prefix, worker, nworkers, stats, known, scratch):
        self.prefix = prefix
        self.points = []            # (label, number of options, chosen)
        self.trace = []             # (label, printable choice)
        self.worker, self.nworkers = worker, nworkers
        self.stats = stats
        self.known = known
        self.scratch = scratch
        self.committed = False
        self.found = {}
        self.vid = None

    # -- choices --------------------------------------------------------------

    def choose(self, label, options):
        options = list(options) if not isinstance(options, int) else list(range(options))
        if not options:
            raise Skip()
        i = len(self.points)
        if i < len(self.prefix):
            plabel, pn, pc = self.prefix[i]
            if plabel is not None and (plabel, pn) != (label, len(options)):
                raise Divergence('replayed choice {} is {}/{}, was {}/{}'.format(
                    i, label, len(options), plabel, pn))
            if pc >= len(options):
                raise Divergence('replayed choice {} out of range'.format(i))
            c = pc
        else:
            c = 0
        self.points.append((label, len(options), c))
        o = options[c]
        self.trace.append((label, _short(o)))
        return o

    def flag(self, label):
        return self.choose(label, [False, True])

    def commit(self):
        if self.committed:
            return
        self.committed = True
        n = self.stats['leaves']
        self.stats['leaves'] += 1
        if self.nworkers and n % self.nworkers != self.worker:
            raise Skip()

    # -- executions -----------------------------------------------------------

    def call(self, fn, *args, **kwargs):
        """Call the code under test, quietly; returns an Outcome."""
        self.stats['transitions'] += 1
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), \
                    warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return Outcome(fn(*args, **kwargs))
        except (Violation, Skip, Divergence):
            raise
        except SystemExit as e:
            return Outcome(exc=e)
        except Exception as e:
            return Outcome(exc=e)

    def in_child(self, fn, limit=None, kill=False):
        """Call in a forked process: ('ok', value), ('raised', type, text), ('killed', signal)
        or ('exit', code).  limit: no file may grow beyond so many bytes; the write
        that would fails (as on a full disk) or, if kill, ends the process there."""
        import resource
        self.stats['transitions'] += 1
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 9
            try:
                os.close(r)
                signal.setitimer(signal.ITIMER_REAL, 0)
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 1)
                os.dup2(null, 2)
                sys.stdout, sys.stderr = open(1, 'w', closefd=False), open(2, 'w', closefd=False)
                warnings.simplefilter('ignore')
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
                if limit is not None:
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                try:
                    res = ('ok', fn())
                except SystemExit as e:
                    res = ('exit', e.code)
                except BaseException as e:
                    res = ('raised', type(e).__name__, str(e)[:300])
                try:
                    blob = pickle.dumps(res)
                except Exception:
                    blob = pickle.dumps((res[0], repr(res[1])[:300]))
                with os.fdopen(w, 'wb') as f:
                    f.write(blob)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            blob = f.read()
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            return ('killed', os.WTERMSIG(status))
        if blob:
            return pickle.loads(blob)
        return ('exit', os.WEXITSTATUS(status))

    def must(self, what, fn, *args, **kwargs):
        """Call that has to return: its value."""
        o = self.call(fn, *args, **kwargs)
        if not o.ok:
            self.fail('{}: {}'.format(what, o))
        return o.value

    def must_raise(self, what, types, fn, *args, **kwargs):
        o = self.call(fn, *args, **kwargs)
        if not o.raised(*types):
            self.fail('{}: expected {}, but it {}'.format(
                what, '/'.join(t.__name__ for t in types), o))
        return o.exc

    def state(self, *key):
        self.stats['states'].add(hashlib.blake2b(
            repr(key).encode(), digest_size=10).digest())

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        self.stats['checks'] += 1
        if not cond:
            self.fail(msg.format(*args))

    def finding(self, key, msg):
        self.stats['checks'] += 1
        if key in self.known:
            self.found[key] = self.found.get(key, 0) + 1
        else:
            self.fail('{} [{}]'.format(msg, key))

    def tmp(self, name):
        """A fresh path in this execution's scratch directory."""
        return os.path.join(self.scratch, name)


def _short(o):
    s = getattr(o, 'label', None)
    if s is None:
        s = repr(o)
    return s if len(s) < 160 else s[:157] + '...'


def new_stats():
    return {'leaves': 0, 'executions': 0, 'transitions': 0, 'checks': 0,
            'choice_points': 0, 'states': set(), 'skipped': 0}


def _alarm(signum, frame):
    raise Timeout()


def run_once(harness, prefix, worker, nworkers, stats, known, horizon):
    """Execute one choice sequence.  Returns (chooser, message of the violation or None)."""
    scratch = tempfile.mkdtemp(prefix='sgmc-', dir=_scratch_root())
    ch = Chooser(prefix, worker, nworkers, stats, known, scratch)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, horizon)
    msg = None
    ran = True
    try:
        harness(ch)
    except Violation as e:
        msg = str(e)
    except Skip:
        ran = False
    except Timeout:
        msg = 'did not finish within {} s (livelock)'.format(horizon)
    except Exception as e:
        # the harness only looks at documented results: what it trips over is a
        # result that isn't there or that changes from one execution to the next
        msg = 'unusable result: {}: {} @ {}'.format(
            type(e).__name__, e, ' < '.join('{}:{}'.format(os.path.basename(f.filename), f.lineno)
                for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    if ran:
        stats['executions'] += 1
    else:
        stats['skipped'] += 1
    return ch, msg


_root = None


def _scratch_root():
    global _root
    if _root is None or not os.path.isdir(_root):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _root = tempfile.mkdtemp(prefix='sgmc-root-', dir=base)
    return _root


def next_prefix(points):
    i = len(points) - 1
    while i >= 0:
        label, n, c = points[i]
        if c + 1 < n:
            return [tuple(p) for p in points[:i]] + [(label, n, c + 1)]
        i -= 1
    return None


def explore_worker(name, harness, worker, nworkers, known, horizon, deadline):
    """Enumerate the whole choice tree of one harness; execute this worker's share."""
    stats = new_stats()
    violations, samples, found = [], [], {}
    prefix = []
    complete = True
    while prefix is not None:
        nold = len(prefix)
        ch, msg = run_once(harness, prefix, worker, nworkers, stats, known, horizon)
        stats['choice_points'] += len(ch.points) - max(nold - 1, 0)
        for k, n in ch.found.items():
            found[k] = found.get(k, 0) + n
        if msg is not None:
            violations.append({'scenario': name, 'choices': [p[2] for p in ch.points],
                               'trace': ch.trace, 'message': msg})
            if len(violations) >= 2 or msg.startswith('did not finish') or FAILFAST:
                complete = False
                open(os.path.join(_scratch_root(), 'stop'), 'w').close()
                break
        elif ch.committed and len(samples) < 2 and stats['executions'] % 7 == 1:
            samples.append({'scenario': name, 'trace': ch.trace[:14]})
        prefix = next_prefix(ch.points)
        if FAILFAST and os.path.exists(os.path.join(_scratch_root(), 'stop')):
            complete = False
            break
        if deadline and time.time() > deadline:
            complete = prefix is None
            break
    return {'scenario': name, 'stats': stats, 'violations': violations,
            'samples': samples, 'found': found, 'complete': complete}


def explore(scenarios, prop, nworkers=None, horizon=40, deadline=None):
    """scenarios: [(name, harness)].  Returns the merged result."""
    known = known_findings(prop)
    nworkers = nworkers or int(os.environ.get('MC_WORKERS', 0)) or min(8, os.cpu_count() or 1)
    root = _scratch_root()
    pids = []
    for w in range(nworkers):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # (ends with its parent)
                res = []
                for name, h in scenarios:
                    with open(os.path.join(root, 'w{}.scenario'.format(w)), 'w') as f:
                        f.write(name)
                    r = explore_worker(name, h, w, nworkers, known, horizon, deadline)
                    res.append(r)
                    if r['violations']:
                        break
                with open(os.path.join(root, 'w{}.pkl'.format(w)), 'wb') as f:
                    pickle.dump(res, f)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                code = 3
            os._exit(code)
        pids.append(pid)
    merged = {'scenarios': {}, 'violations': [], 'samples': [], 'found': {},
              'complete': True, 'errors': []}
    for w, pid in enumerate(pids):
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            name = open(os.path.join(root, 'w{}.scenario'.format(w))).read()
            merged['violations'].append({
                'scenario': name, 'choices': [], 'trace': [],
                'message': 'the process was killed by signal {}'.format(os.WTERMSIG(status))})
            continue
        if status != 0:
            merged['errors'].append('worker {} failed'.format(w))
            continue
        with open(os.path.join(root, 'w{}.pkl'.format(w)), 'rb') as f:
            res = pickle.load(f)
        for r in res:
            s = merged['scenarios'].setdefault(r['scenario'], new_stats())
            for k in ('executions', 'transitions', 'checks'):
                s[k] += r['stats'][k]
            # every worker walks the whole tree: these are the same number in all
            s['leaves'] = max(s['leaves'], r['stats']['leaves'])
            s['choice_points'] = max(s['choice_points'], r['stats']['choice_points'])
            s['states'] |= r['stats']['states']
            merged['violations'] += r['violations']
            merged['samples'] += r['samples']
            merged['complete'] = merged['complete'] and r['complete']
            for k, n in r['found'].items():
                merged['found'][k] = merged['found'].get(k, 0) + n
    return merged


def cleanup():
    global _root
    if _root and os.path.isdir(_root):
        shutil.rmtree(_root, ignore_errors=True)
    _root = None


def replay(scenarios, prop, rec, horizon=40):
    """Re-execute one recorded choice sequence, without the explorer."""
    harness = dict(scenarios)[rec['scenario']]
    prefix = [(None, None, c) for c in rec['choices']]
    return run_once(harness, prefix, 0, 0, new_stats(), known_findings(prop), horizon)


def main(prop, level, scenarios_of, rule, assumptions, bounds, argv=None):
    """Command line of one check."""
    argv = sys.argv[1:] if argv is None else argv
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scenarios = scenarios_of(tier)
    try:
        if '--replay' in argv:
            rec = json.load(open(argv[argv.index('--replay') + 1]))
            scenarios = scenarios_of(rec.get('tier', tier))
            ch, msg = replay(scenarios, prop, rec)
            for label, c in ch.trace:
                print('  {} = {}'.format(label, c))
            print('VIOLATION property={} {}'.format(prop, msg) if msg else 'no violation')
            return 1 if msg else 0
        only = None
        if '--only' in argv:
            only = argv[argv.index('--only') + 1]
            scenarios = [s for s in scenarios if only in s[0]]
        res = explore(scenarios, prop)
        for e in res['errors']:
            print('ERROR {}: {}'.format(prop, e))
        violations = sorted(res['violations'], key=lambda v: (len(v['choices']), v['choices']))
        rdir = os.path.join(VERIF, 'replays')
        replays = []
        for n, v in enumerate(violations[:3]):
            ch = None
            if v['choices'] and not (n and v['message'].startswith('did not finish')):
                # a violation has to show again when its choices are replayed by themselves
                try:
                    ch, again = _isolated_replay(scenarios, prop, v)
                except Exception as e:
                    again = 'replay failed: {}'.format(e)
                v['reproduced_in_isolation'] = again == v['message'] or bool(again)
            v.update(property=prop, tier=tier)
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '{}-{}.json'.format(prop, n + 1))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            replays.append(path)
        ev = evidence(prop, tier, seed, level, scenarios, res, rule, assumptions, bounds,
                      time.time() - t0, violations)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        c = ev['coverage']
        print('{} [{}]: {} executions, {} distinct states, {} transitions, {} checks, '
              'complete={}, {:.1f} s'.format(prop, tier, c['executions'], c['states'],
                                             c['transitions'], c['oracle_checks'],
                                             res['complete'], time.time() - t0))
        if '-v' in argv:
            for s in c['scenarios']:
                print('   ', s)
        known = known_findings(prop)
        for key in sorted(known):
            print('KNOWN-FINDING: property={} {} ({} executions) {}'.format(
                prop, key, res['found'].get(key, 0), known[key]))
        if violations:
            for path, v in zip(replays, violations):
                print('VIOLATION property={} replay={}'.format(prop, path))
                print('   {}: {}'.format(v['scenario'], v['message'][:1500]))
                for label, ch in v['trace']:
                    print('      {} = {}'.format(label, ch))
            return 1
        if res['errors']:
            return 3
        if not res['complete'] and not violations:
            print('ERROR {}: exploration did not complete'.format(prop))
            return 3
        return 0
    finally:
        cleanup()


def _isolated_replay(scenarios, prop, v):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _, msg = replay(scenarios, prop, v)
            with os.fdopen(w, 'w') as f:
                f.write(msg or '')
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        msg = f.read()
    os.waitpid(pid, 0)
    return None, msg


def evidence(prop, tier, seed, level, scenarios, res, rule, assumptions, bounds, wall, violations):
    ex = sum(s['executions'] for s in res['scenarios'].values())
    st = sum(len(s['states']) for s in res['scenarios'].values())
    tr = sum(s['transitions'] for s in res['scenarios'].values())
    ck = sum(s['checks'] for s in res['scenarios'].values())
    cov = {
        'executions': ex,
        'evaluations': ex,
        'distinct_nontrivial': st,
        'states': st,
        'transitions': tr,
        'traces_validated_against_impl': ex,
        'oracle_checks': ck,
        'rule': rule,
        'bounds': bounds,
        'exhaustive': bool(res['complete'] and not res['errors']),
        'scenarios': [{'name': n, 'executions': s['executions'], 'leaves': s['leaves'],
                       'choice_points': s['choice_points'], 'states': len(s['states']),
                       'transitions': s['transitions'], 'checks': s['checks']}
                      for n, s in res['scenarios'].items()],
        'samples': res['samples'][:6] or [{'note': 'stopped at the first violation'}],
        'known_findings_seen': res['found'],
    }
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
            'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': len(violations)}
