"""Runs the scenes of a property over all cores and judges the result."""
from __future__ import annotations

import concurrent.futures as cf
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

from rithm.fraction import Fraction as RF

from . import explore, load, scalar
from .explore import Explorer, Infeasible, PathLimit, dump_trace, load_trace
from .shapes import Violation, map_scalars

PATH_SECONDS = 25.0  # one path (normally some 10 ms)
REPLAY_SECONDS = 40.0
CLOSE_SECONDS = 2.0
MAX_VIOLATIONS_PER_SCENE = 3
WORKER_MEMORY = 3_500_000_000


class Scene:
    """``fn(ns, params, hint, cache)`` drives the real code through the public
    API of ``ns`` and checks it, raising Violation; returns an outcome (nested
    data) used for validating the encoding against a concrete run.

    ``domain(*params)`` -> [(symbolic scalar, sign mask)] restricts the values
    of the parameters; ``label(outcome)`` names the kind of the outcome (for
    the vacuity statistics)."""

    def __init__(self, name, nparams, fn, domain=(), weight=1.0, label=None,
                 family=''):
        self.name = name
        self.nparams = nparams
        self.fn = fn
        self.domain = domain
        self.weight = weight
        self.label = label or default_label
        self.family = family


def default_label(outcome):
    if isinstance(outcome, (str, bool)):
        return str(outcome)
    if isinstance(outcome, (list, tuple)) and outcome:
        return default_label(outcome[0])
    return ''


class Context:
    def __init__(self):
        self.real = load.load_real()
        self.sym = load.load_symbolic()


CTX = None
SCENES = {}
SYM_CACHE = {}
EXECUTED = set()


def context():
    global CTX
    if CTX is None:
        CTX = Context()
    return CTX


# -- which functions of the code under test were executed symbolically
def watch_functions():
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, 'verif')
    except ValueError:
        return

    def on_start(code, offset):
        if code.co_filename.startswith(load.REPO + '/rene/'):
            EXECUTED.add(
                code.co_filename[len(load.REPO) + 1:] + ':' + code.co_qualname
            )
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


USUAL_RECURSION_LIMIT = 1000


def limited(seconds, call):
    """Run ``call`` under a time limit and with the stack of a program of the
    user."""

    def on_alarm(signum, frame):
        raise PathLimit('time')

    limit = sys.getrecursionlimit()
    depth, frame = 0, sys._getframe()
    while frame is not None:
        depth, frame = depth + 1, frame.f_back
    old = signal.signal(signal.SIGALRM, on_alarm)
    try:
        sys.setrecursionlimit(depth + USUAL_RECURSION_LIMIT)
        # raises once more in case that the first exception gets lost
        signal.setitimer(signal.ITIMER_REAL, seconds, 10)
        try:
            return call()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.setrecursionlimit(limit)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.setrecursionlimit(limit)
        signal.signal(signal.SIGALRM, old)


def run_concrete(scene, params):
    """Run a scene on rationals with the real scalar: (outcome, error)."""
    ns = context().real
    with ns:
        try:
            return limited(
                10 ** 6,
                lambda: scene.fn(ns, list(params), lambda v: v, None),
            ), None
        except Infeasible:
            return None, None
        except Exception as e:  # noqa
            return None, e


def in_subprocess(scene, params, seconds=REPLAY_SECONDS):
    """Concrete replay with a time limit:
    ('ok'|'violation'|'error'|'timeout'|'crash', text)"""
    ctx = mp.get_context('fork')
    parent, child = ctx.Pipe(duplex=False)

    def body():
        limit_memory()
        outcome, error = run_concrete(scene, params)
        if error is None:
            child.send(('ok', ''))
        elif isinstance(error, Violation):
            child.send(('violation', str(error)))
        else:
            child.send((
                'error',
                ''.join(traceback.format_exception(error))[-3000:],
            ))
        child.close()
        os._exit(0)

    p = ctx.Process(target=body)
    p.start()
    child.close()
    try:
        if parent.poll(seconds):
            result = parent.recv()
        else:
            result = ('timeout', f'no result within {seconds} s')
    except EOFError:
        result = ('crash', 'the process died')
    finally:
        if p.is_alive():
            p.kill()
        p.join()
    return result


def limit_memory():
    try:
        resource.setrlimit(
            resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY)
        )
    except (ValueError, OSError):
        pass


def work_on(task):
    """task = (scene name, [(trace, witness)], budget seconds)"""
    name, items, budget = task
    scene = SCENES[name]
    ctx = context()
    cache = SYM_CACHE.setdefault(name, {})
    t0 = time.perf_counter()
    ex = Explorer(scene.nparams, scene.domain)
    ex.start()
    if items is not None:
        ex.work = [
            (load_trace(tr), None if w is None else tuple(RF(a, b) for a, b in w))
            for tr, w in items
        ]
    out = dict(
        name=name, violations=[], validated=0, mismatched=[], errors=[],
        limits=0, samples=[], nowitness=0, escaped=0, escape_notes=[],
        max_depth=0, rest=[], kinds={}, close_points=0,
    )
    before = set(EXECUTED)

    def fn(params):
        run = scalar.RUN

        def hint(v):
            if run.witness is None:
                return None
            if type(v) is not scalar.S:
                return v
            try:
                return scalar.evaluate(v, run.witness)
            except ZeroDivisionError:
                return None

        return scene.fn(ctx.sym, params, hint, cache)

    def violation(w, error):
        out['violations'].append(
            (name, [ratio(v) for v in w],
             f'{type(error).__name__}: {error}'[:2000])
        )

    escaped = []
    with ctx.sym:
        while ex.work:
            if time.perf_counter() - t0 > budget:
                break
            trace, witness = ex.work.pop()
            try:
                run, outcome, error = ex.run_path(
                    fn, trace, witness, PATH_SECONDS
                )
            except explore.Nondeterminism as e:
                out['errors'].append(f'{name}: re-execution diverged: {e}')
                continue
            if error == 'infeasible':
                continue
            out['max_depth'] = max(out['max_depth'], len(run.trace))
            w = run.witness
            if w is None:
                w = final_witness(ex, run)
            if w is None:
                out['nowitness'] += 1
                if error is not None:
                    k = 'no rational witness: ' + type(error).__name__
                    out['kinds'][k] = out['kinds'].get(k, 0) + 1
                continue
            escape = isinstance(error, scalar.SymbolicEscape) or (
                error is not None
                and isinstance(error.__cause__ or error.__context__,
                               scalar.SymbolicEscape)
            )
            # rounding was taken for the identity
            escape = escape or run.approximate
            if error is not None and not escape:
                if isinstance(error, PathLimit):
                    out['limits'] += 1
                violation(w, error)
                if len(out['violations']) >= MAX_VIOLATIONS_PER_SCENE:
                    break
                continue
            # translator validation: the same point, the real scalar
            try:
                with ctx.real:
                    concrete = limited(
                        PATH_SECONDS,
                        lambda: scene.fn(
                            ctx.real, list(w), lambda v: v, None
                        ),
                    )
            except Infeasible:
                continue
            except (Exception, PathLimit) as e:  # noqa
                violation(w, e)
                if len(out['violations']) >= MAX_VIOLATIONS_PER_SCENE:
                    break
                continue
            if escape:
                # this path is only decided at single points
                out['escaped'] += 1
                if len(escaped) < 200:
                    escaped.append(w)
                if len(out['escape_notes']) < 3:
                    out['escape_notes'].append(
                        f'{name}: {error or "rounding of a symbolic value"}'
                    )
                continue
            symbolic = map_scalars(
                outcome, scalar.S, lambda s: scalar.evaluate(s, w)
            )
            if symbolic == concrete:
                out['validated'] += 1
            else:
                out['mismatched'].append(
                    (name, [ratio(v) for v in w], str(symbolic)[:300],
                     str(concrete)[:300])
                )
            k = scene.label(concrete)
            out['kinds'][k] = out['kinds'].get(k, 0) + 1
            if not out['samples']:
                out['samples'].append(dict(
                    scene=name,
                    witness=[str(v) for v in w],
                    path_condition_length=sum(
                        1 for t in run.trace if not t[3]
                    ),
                    outcome=str(concrete)[:300],
                ))
    scalar.set_run(None, 0)
    if out['escaped'] and len(out['violations']) < MAX_VIOLATIONS_PER_SCENE:
        close_calls(ctx, scene, ex, escaped, violation, out)
    scalar.reset_memo()
    if ex.work and len(out['violations']) < MAX_VIOLATIONS_PER_SCENE:
        out['rest'] = [
            (dump_trace(tr), None if w is None else tuple(ratio(v) for v in w))
            for tr, w in ex.work
        ]
    out['stats'] = ex.stats
    out['unknown_notes'] = ex.unknown_notes[:5]
    out['executed'] = EXECUTED - before
    out['wall'] = time.perf_counter() - t0
    return out


def close_calls(ctx, scene, ex, escaped, violation, out):
    """The code rounds values: besides one point of each path, points next to
    where paths part are tried with the real scalar."""
    for points in (ex.close_points(), ex.neighbours(escaped)):
        t0 = time.perf_counter()
        for w in points:
            if time.perf_counter() - t0 > CLOSE_SECONDS:
                break
            if not ex.in_domain(w):
                continue
            out['close_points'] += 1
            try:
                with ctx.real:
                    limited(
                        PATH_SECONDS,
                        lambda: scene.fn(
                            ctx.real, list(w), lambda v: v, None
                        ),
                    )
            except Infeasible:
                continue
            except (Exception, PathLimit) as e:  # noqa
                violation(w, e)
                if len(out['violations']) >= MAX_VIOLATIONS_PER_SCENE:
                    return


def final_witness(ex, run):
    """A rational point of the path's cell, if any was found."""
    decisions = ex.genuine(run.trace)
    if not decisions:
        return tuple(RF(0) for _ in range(ex.nparams))
    a, m = decisions[-1]
    r, w = ex.check(decisions[:-1], a, m)
    return w


def ratio(v):
    return (int(v.numerator), int(v.denominator))


def _init():
    limit_memory()
    watch_functions()
    context()


def explore_scenes(scenes, procs=None, slice_s=2.0, deadline_s=None,
                   judge=None):
    """Explore every scene to exhaustion; returns aggregated results.

    ``judge(scene, params, message)`` replays a candidate violation and says
    'stop' when there is no point in looking further."""
    procs = procs or min(8, os.cpu_count() or 1)
    assert len({s.name for s in scenes}) == len(scenes), 'duplicate scenes'
    for s in scenes:
        SCENES[s.name] = s
    context()
    import sympy  # noqa: F401  (before forking)

    mctx = mp.get_context('fork')
    t0 = time.perf_counter()
    agg = dict(
        stats={}, violations=[], validated=0, mismatched=[], errors=[],
        samples=[], nowitness=0, limits=0, escaped=0, escape_notes=[],
        max_depth=0, unfinished=[], per_scene={}, unknown_notes=[], kinds={},
        executed=set(), stopped=False, close_points=0,
    )
    queue = sorted(scenes, key=lambda s: -s.weight)
    tasks = [(s.name, None, slice_s) for s in queue]
    bad_scenes = set()
    suspects = []

    def new_pool():
        return cf.ProcessPoolExecutor(
            procs, mp_context=mctx, initializer=_init
        )

    pool = new_pool()
    pending = {}
    try:
        while tasks or pending:
            while tasks and len(pending) < procs + 2:
                t = tasks.pop(0)
                if t[0] in bad_scenes:
                    continue
                if deadline_s and time.perf_counter() - t0 > deadline_s:
                    agg['unfinished'].append(t[0])
                    continue
                pending[pool.submit(work_on, t)] = t
            if not pending:
                break
            done, _ = cf.wait(
                pending, timeout=5, return_when=cf.FIRST_COMPLETED
            )
            broken = []
            for x in done:
                t = pending.pop(x)
                try:
                    r = x.result()
                except cf.process.BrokenProcessPool:
                    broken.append(t)
                    continue
                except Exception as e:  # noqa
                    agg['errors'].append(
                        f'{t[0]}: '
                        + ''.join(traceback.format_exception(e))[-1500:]
                    )
                    continue
                merge(agg, t, r)
                if len(r['violations']) >= MAX_VIOLATIONS_PER_SCENE:
                    bad_scenes.add(t[0])
                if judge is not None:
                    for v in r['violations']:
                        if judge(*v) == 'stop':
                            agg['stopped'] = True
                if r['rest']:
                    n = max(1, min(procs, len(r['rest'])))
                    for i in range(n):
                        tasks.append((t[0], r['rest'][i::n], slice_s))
            if agg['stopped']:
                break
            if broken:
                # a worker died (memory, a crash inside the solver): the tasks
                # it may have had are retried once, one at a time
                broken += pending.values()
                pending.clear()
                pool.shutdown(wait=False, cancel_futures=True)
                kill_children(pool)
                for t in broken:
                    if suspects.count(t[0]) >= 2:
                        agg['errors'].append(f'{t[0]}: the worker died')
                        bad_scenes.add(t[0])
                    else:
                        suspects.append(t[0])
                        tasks.append(t)
                pool = new_pool()
    finally:
        pool.shutdown(wait=False, cancel_futures=True)
        kill_children(pool)
    agg['wall'] = time.perf_counter() - t0
    return agg


def kill_children(pool):
    for p in list((getattr(pool, '_processes', None) or {}).values()):
        if p.is_alive():
            p.kill()


def merge(agg, t, r):
    for k, v in r['stats'].items():
        agg['stats'][k] = agg['stats'].get(k, 0) + v
    for k in ('validated', 'nowitness', 'limits', 'escaped',
              'close_points'):
        agg[k] += r[k]
    for k, v in r['kinds'].items():
        agg['kinds'][k] = agg['kinds'].get(k, 0) + v
    agg['max_depth'] = max(agg['max_depth'], r['max_depth'])
    for k in ('violations', 'mismatched', 'errors', 'unknown_notes',
              'escape_notes'):
        agg[k] += r[k]
    agg['executed'] |= r['executed']
    if len(agg['samples']) < 8:
        agg['samples'] += r['samples']
    ps = agg['per_scene'].setdefault(
        t[0], dict(paths=0, queries=0, wall=0.0)
    )
    ps['paths'] += r['stats']['paths']
    ps['queries'] += r['stats']['queries']
    ps['wall'] = round(ps['wall'] + r['wall'], 2)
