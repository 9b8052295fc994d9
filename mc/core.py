"""Explicit-state / exhaustive-enumeration engine shared by all checks.

A check module (checks/cNN.py) exports ``scenarios(tier)`` returning a list of
Scenario objects.  A scenario is an independent bounded exploration that runs
in its own forked worker process:

* ``Bfs``    - breadth first search over operation histories.  Every history is
  replayed on freshly built *real* objects and on a reference model; every
  operation is compared with the model (or an invariant is evaluated) and the
  search deduplicates on a canonical form of the complete reachable real state
  plus the model state.
* ``Enum``   - exhaustive enumeration of a finite product of inputs / fault
  points / configurations, each executed on the real code and compared with a
  reference model.

Nothing is sampled; VERIF_SEED only permutes the order in which scenarios are
dispatched to the workers.
"""
from __future__ import annotations
import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE',
                          os.path.join(VERIF, 'evidence'))
EXEC_LIMIT = 30          # seconds for ONE execution (they take milliseconds)


class Mismatch(Exception):
    """The real code disagreed with the reference model / invariant."""


class ExecTimeout(BaseException):
    """One execution of the real code did not terminate."""


def expect(cond, msg):
    if not cond:
        raise Mismatch(msg() if callable(msg) else msg)


def eq(got, want, what):
    if got != want or not same_shape(got, want):
        raise Mismatch(f'{what}: got {got!r}, expected {want!r}')


def same_shape(a, b):
    """Distinguish True/1/1.0 and nested occurrences of them."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return isinstance(a, float) == isinstance(b, float)
    if isinstance(a, dict) and isinstance(b, dict):
        return all(same_shape(a[k], b[k]) for k in a if k in b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same_shape, a, b))
    return True


# --------------------------------------------------------------------------
# canonical form of real state
# --------------------------------------------------------------------------

def canon(*roots):
    """A hashable canonical form of everything reachable from ``roots``.

    Objects are numbered in traversal order, so two states get the same form
    iff they are isomorphic including aliasing, private attributes and the
    attributes of container subclasses.  Classes, functions and modules are
    represented by name (they are shared by all executions of a scenario).
    Isomorphic states have the same futures because the library's behaviour
    does not depend on addresses.
    """
    ids = {}
    keep = []

    def walk(o):
        if o is None or isinstance(o, (bool, int, str, bytes, float)):
            return (type(o).__name__, o if not isinstance(o, float) else repr(o))
        if isinstance(o, type) or callable(o) and hasattr(o, '__qualname__'):
            return ('C', getattr(o, '__qualname__', '?'))
        key = id(o)
        if key in ids:
            return ('R', ids[key])
        n = ids[key] = len(ids)
        keep.append(o)
        if isinstance(o, dict):
            body = tuple((walk(k), walk(v)) for k, v in o.items())
        elif isinstance(o, (list, tuple)):
            body = tuple(walk(v) for v in o)
        elif isinstance(o, (set, frozenset)):
            body = tuple(walk(v) for v in sorted(o, key=repr))
        else:
            body = ()
        d = getattr(o, '__dict__', None) if not isinstance(o, type) else None
        attrs = ()
        if d is not None:
            attrs = tuple((k, walk(v)) for k, v in sorted(d.items())
                          if k != '__orig_class__')
        elif not isinstance(o, (dict, list, tuple, set, frozenset)):
            body = (repr(o),)
        return (n, type(o).__name__, body, attrs)
    return tuple(walk(r) for r in roots)


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=10).hexdigest()


# --------------------------------------------------------------------------
# reporting
# --------------------------------------------------------------------------

class Report:
    def __init__(self, name, only=None, deadline=None):
        self.name = name
        self.only = only
        self.deadline = deadline
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.violations = []
        self.known = []
        self.max_depth = 0
        self.capped = None
        self.notes = []
        self.kf = {}

    def outcome(self, o):
        self.outcomes.add(digest(o))

    def violation(self, trace, msg):
        if len(self.violations) < 3:
            self.violations.append({'scenario': self.name, 'trace': trace,
                                    'message': msg[:2000]})

    def timed_out(self):
        return self.deadline is not None and time.time() > self.deadline


class watchdog:
    """Limits one execution; a hang of the real code is a violation.  What
    counts is the processor time it took, so that a busy machine raises no
    alarm; an execution which waits forever is ended after five limits."""
    def __init__(self, secs=EXEC_LIMIT):
        self.secs = secs

    def __enter__(self):
        cpu, wall = time.process_time(), time.monotonic()

        def on_alarm(*_):
            left = self.secs - (time.process_time() - cpu)
            if left > 0.5 and time.monotonic() - wall < 5 * self.secs:
                signal.alarm(max(1, int(left)))
                return
            raise ExecTimeout(f'execution exceeded {self.secs}s')
        self.old = signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(self.secs)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


def guarded(fn, *args):
    """Run fn; returns None or a violation message."""
    try:
        with watchdog():
            fn(*args)
        return None
    except Mismatch as e:
        return f'{e}'
    except ExecTimeout as e:
        return f'did not terminate: {e}'
    except RecursionError:
        return 'RecursionError escaped from the code under test'
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        return f'unexpected {type(e).__name__}: {e}\n{tb}'


# --------------------------------------------------------------------------
# scenarios
# --------------------------------------------------------------------------

class Scenario:
    def __init__(self, name):
        self.name = name

    def run(self, rep):
        raise NotImplementedError


class Enum(Scenario):
    """Exhaustive enumeration.  ``cases`` yields (label, thunk); thunk raises
    Mismatch on disagreement and may return an outcome to be recorded."""

    def __init__(self, name, cases, known=None, shard=None):
        super().__init__(name + (f'#{shard[0]}' if shard else ''))
        self.shard = shard       # (i, n): only cases i mod n
        self.cases = cases
        self.known = known or {}

    def run(self, rep):
        for nr, (label, thunk) in enumerate(self.cases()):
            if self.shard and nr % self.shard[1] != self.shard[0]:
                continue
            if rep.only is not None and \
                    jnorm(rep.only) != jnorm(label):
                continue
            if rep.timed_out():
                rep.capped = 'time budget'
                break
            res = []

            def go():
                res.append(thunk())
            msg = guarded(go)
            rep.transitions += 1
            rep.traces += 1
            if msg is not None:
                if repr(label) in self.known:
                    rep.known.append(self.known[repr(label)])
                    continue
                rep.violation(label, msg)
                if len(rep.violations) >= 3:
                    rep.capped = 'stopped at violations'
                    break
            else:
                rep.outcome(res[0] if res[0] is not None else jnorm(label))
        rep.states = len(rep.outcomes)


def enums(n, name, cases, known=None):
    return [Enum(name, cases, known, shard=(i, n)) for i in range(n)]


def sharded(n, name, system, depth):
    return [Bfs(name, system, depth, shard=(i, n)) for i in range(n)]


class Bfs(Scenario):
    """``sys`` offers
         build()            -> fresh (real+model) world
         ops(world)         -> finite list of JSON-able operations
         step(world, op)    -> applies op to real and model, compares
         key(world)         -> canonical state (default: canon(world.real) + model)
         check(world)       -> state invariant (optional)
       A world whose ``dead`` attribute is true is not expanded."""

    def __init__(self, name, system, depth, max_states=None, shard=None):
        super().__init__(name + (f'#{shard[0]}' if shard else ''))
        self.shard = shard       # (i, n): only first operations i mod n
        self.system = system
        self.depth = depth
        self.max_states = max_states

    def _replay(self, hist):
        w = self.system.build()
        # prefixes were judged when they were explored; a system may offer a
        # cheaper way to re-execute them
        step = getattr(self.system, 'advance', self.system.step)
        for op in hist:
            step(w, op)
        return w

    def run(self, rep):
        s = self.system
        check = getattr(s, 'check', None)
        outcome = getattr(s, 'outcome', None)
        if rep.only is not None:
            def one():
                w = s.build()
                if check:
                    check(w)
                for op in rep.only:
                    s.step(w, tuple_(op))
                    if check:
                        check(w)
            msg = guarded(one)
            rep.transitions = len(rep.only)
            rep.traces = 1
            if msg:
                rep.violation(rep.only, msg)
            return
        holder = []

        def start():
            w = s.build()
            if check:
                check(w)
            holder.append((s.key(w), s.ops(w)))
        msg = guarded(start)
        if msg:
            rep.violation([], 'initial state: ' + msg)
            return
        key0, ops0 = holder[0]
        if self.shard:
            i, n = self.shard
            ops0 = [op for k, op in enumerate(ops0) if k % n == i]
        seen = {digest(key0)}
        frontier = collections.deque([((), ops0)])
        while frontier:
            hist, ops = frontier.popleft()
            if len(hist) >= self.depth:
                continue
            for op in ops:
                if rep.timed_out():
                    rep.capped = 'time budget at depth %d' % (len(hist) + 1)
                    frontier.clear()
                    break
                got = []

                def go():
                    w = self._replay(hist)
                    s.step(w, op)
                    if check:
                        check(w)
                    if outcome:
                        rep.outcome(outcome(w))
                    if getattr(w, 'dead', False):
                        got.append((None, ()))
                    else:
                        got.append((digest(s.key(w)), s.ops(w)))
                msg = guarded(go)
                rep.transitions += 1
                rep.traces += 1
                if msg:
                    rep.violation([*hist, op], msg)
                    if len(rep.violations) >= 2:
                        rep.capped = 'stopped at violations'
                        frontier.clear()
                        break
                    continue
                k, nops = got[0]
                if k is None:
                    continue
                if k not in seen:
                    seen.add(k)
                    if self.max_states and len(seen) > self.max_states:
                        rep.capped = f'state cap {self.max_states}'
                        frontier.clear()
                        break
                    rep.max_depth = max(rep.max_depth, len(hist) + 1)
                    frontier.append(((*hist, op), nops))
        rep.states = len(seen)
        if not outcome:
            rep.outcomes = set(seen)


def jnorm(x):
    return json.dumps(x, default=repr)


def tuple_(x):
    if isinstance(x, list):
        return tuple(tuple_(i) for i in x)
    return x


# --------------------------------------------------------------------------
# driver
# --------------------------------------------------------------------------

def _worker(args):
    modname, tier, idx, deadline = args
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sc = _SCEN[idx]
    rep = Report(sc.name, deadline=deadline)
    t = time.time()
    try:
        sc.run(rep)
    except Exception:
        rep.violation([], 'scenario failed: ' + traceback.format_exc(limit=-8))
    return idx, rep, time.time() - t


_SCEN = []


def run_check(pid, modname, tier, seed, meta, budget, jobs=None):
    """Explore every scenario of a check; returns the process exit code."""
    global _SCEN
    t0 = time.time()
    import importlib
    try:
        mod = importlib.import_module(modname)
        _SCEN = mod.scenarios(tier)
        err = None
    except Exception:
        err = traceback.format_exc(limit=-8)
        _SCEN = []
    reports = []
    if err is None:
        order = list(range(len(_SCEN)))
        random.Random(seed).shuffle(order)
        # long scenarios first when the module says so
        order.sort(key=lambda i: -getattr(_SCEN[i], 'weight', 1))
        deadline = t0 + budget
        jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(order)))
        ctx = mp.get_context('fork')
        with ctx.Pool(jobs, maxtasksperchild=8) as pool:
            for idx, rep, secs in pool.imap_unordered(
                    _worker, [(modname, tier, i, deadline) for i in order],
                    chunksize=1):
                rep.secs = secs
                reports.append((idx, rep))
                if sum(len(r.violations) for _, r in reports) >= 6:
                    pool.terminate()
                    break
        reports.sort(key=lambda r: r[0])
        reports = [r for _, r in reports]
    viols = [v for r in reports for v in r.violations]
    if err is not None:
        viols = [{'scenario': '(import)', 'trace': [], 'message': err}]
    states = sum(r.states for r in reports)
    trans = sum(r.transitions for r in reports)
    traces = sum(r.traces for r in reports)
    outcomes = set()
    for r in reports:
        outcomes |= r.outcomes
    known = []
    for r in reports:
        for k in r.known:
            if k not in known:
                known.append(k)
    wall = time.time() - t0
    capped = {r.name: r.capped for r in reports
              if r.capped and 'violation' not in r.capped}
    cov = {
        'states': states, 'transitions': trans,
        'traces_validated_against_impl': traces,
        'exhaustive': not capped and not viols,
        'distinct_outcomes': len(outcomes),
        'scenarios': len(reports),
        'max_depth': max([r.max_depth for r in reports] or [0]),
        'bound': meta.get('bound', ''),
        'scenario_table': [
            {'name': r.name, 'states': r.states, 'transitions': r.transitions,
             'distinct_outcomes': len(r.outcomes), 'depth': r.max_depth,
             'seconds': round(getattr(r, 'secs', 0), 2)}
            for r in sorted(reports, key=lambda r: -r.transitions)[:40]],
    }
    if capped:
        cov['caps_hit'] = capped
    ev = {'property': pid, 'tier': tier, 'seed': seed,
          'level': 'model_checking', 'coverage': cov,
          'assumptions': meta.get('assumptions', []),
          'wall_s': round(wall, 2), 'violations': len(viols)}
    os.makedirs(os.path.join(EVIDENCE), exist_ok=True)
    with open(os.path.join(EVIDENCE, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print(f'{pid} tier={tier} seed={seed} scenarios={len(reports)} '
          f'states={states} transitions={trans} traces={traces} '
          f'outcomes={len(outcomes)} wall={wall:.1f}s'
          + (f' CAPPED={capped}' if capped else ''))
    for k in known:
        print(f'KNOWN-FINDING: property={pid} {k}')
    if not viols:
        return 0
    d = os.path.join(EVIDENCE, 'replay')
    os.makedirs(d, exist_ok=True)
    viols.sort(key=lambda v: len(str(v['trace'])))
    for i, v in enumerate(viols[:3]):
        path = os.path.join(d, f'{pid}-{i}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'module': modname, **v},
                      f, indent=1, default=repr)
        print(f"  scenario={v['scenario']} trace={v['trace']!r}")
        print('  ' + v['message'][:700].replace('\n', '\n    '))
        print(f'VIOLATION property={pid} replay={path}')
    return 1


def replay(path):
    """Re-execute one violation artefact; exit 1 if it still fails."""
    import importlib
    with open(path) as f:
        art = json.load(f)
    mod = importlib.import_module(art['module'])
    for sc in mod.scenarios(art['tier']):
        if sc.name == art['scenario']:
            only = art['trace']
            rep = Report(sc.name, only=only if only != [] else None)
            sc.run(rep)
            for v in rep.violations:
                print(v['message'])
                print(f"VIOLATION property={art['property']} replay={path}")
            print(f'replayed transitions={rep.transitions}')
            return 1 if rep.violations else 0
    print('scenario not found')
    return 1
