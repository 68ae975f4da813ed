"""Complete path exploration of real Python code over symbolic scalars.

``Explorer`` re-executes a scene (a Python callable that drives the real code
and then the oracle) once per feasible path.  Each undecided comparison is put
to Z3 together with the path condition: the side the current witness is on is
feasible by evaluation, the other one is feasible only if Z3 finds a model and
is discarded only when Z3 answers unsat.  A scene whose worklist runs empty is
therefore decided for *every* rational value of its parameters.
"""
from __future__ import annotations

import signal
import time

import z3
from rithm.fraction import Fraction as RF

from . import scalar
from .scalar import ATOMS, NEG, POS, ZER, _atom_id, p_eval


class PathLimit(BaseException):
    pass


class Infeasible(BaseException):
    """The scene's own precondition excludes this path."""


class Nondeterminism(BaseException):
    pass


class Run:
    __slots__ = (
        'facts', 'trace', 'pos', 'prefix', 'witness', 'ex', 'reps', 'const_reps',
        'asks', 'approximate',
    )

    def __init__(self, ex, prefix, witness, facts):
        self.ex = ex
        self.prefix = prefix
        self.witness = witness
        self.facts = dict(facts)
        self.trace = []
        self.pos = 0
        self.reps = []
        self.const_reps = {}
        self.asks = 0
        self.approximate = False

    def ask(self, atom, q):
        facts = self.facts
        mask = facts.get(atom, 7)
        if not mask & q:
            return False
        if not mask & ~q & 7:
            return True
        i = self.pos
        if i < len(self.prefix):
            entry = self.prefix[i]
            if entry[0] != atom or entry[1] != q:
                raise Nondeterminism((entry, atom, q))
            answer = entry[2]
        else:
            entry = self.ex.decide(self, atom, q)
            answer = entry[2]
        self.pos = i + 1
        self.trace.append(entry)
        facts[atom] = mask & (q if answer else ~q & 7)
        return answer

    def hash_of(self, s):
        if s.c is not None:
            code = self.const_reps.get(s.c)
            if code is not None:
                return code
            for rep, code in self.reps:
                if rep.c is None and rep == s:
                    self.const_reps[s.c] = code
                    return code
        else:
            for rep, code in self.reps:
                if rep == s:
                    return code
        code = hash((0x9E3779B9, len(self.reps)))
        self.reps.append((s, code))
        if s.c is not None:
            self.const_reps[s.c] = code
        return code


def sign_of(v):
    return POS if v > 0 else (NEG if v < 0 else ZER)


class Explorer:
    def __init__(self, nparams, domain=(), timeout_ms=20000):
        self.nparams = nparams
        self.ctx = z3.Context()
        self.vars = [z3.Real(f'p{i}', ctx=self.ctx) for i in range(nparams)]
        self.solver = z3.Solver(ctx=self.ctx)
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.zatoms = {}
        self.stack = []  # genuine decisions asserted: (atom, mask)
        self.work = []
        self.stats = dict(
            paths=0, decisions=0, queries=0, sat=0, unsat=0, unknown=0,
            nonlinear_queries=0, solver_s=0.0, asks=0, irrational=0,
            infeasible=0,
        )
        self.domain_facts = {}
        self.domain = []
        self._domain_src = domain
        self.unknown_notes = []
        self.forks = {}  # atom -> points on either side of it

    # -- solver
    def zatom(self, a):
        e = self.zatoms.get(a)
        if e is None:
            terms = []
            for m, c in ATOMS[a][0]:
                t = z3.RealVal(c, ctx=self.ctx)
                for v, k in zip(self.vars, m):
                    for _ in range(k):
                        t = t * v
                terms.append(t)
            e = self.zatoms[a] = (
                z3.Sum(terms) if len(terms) > 1 else terms[0]
            )
        return e

    def lit(self, a, mask):
        e = self.zatom(a)
        return {
            1: lambda: e < 0, 2: lambda: e == 0, 3: lambda: e <= 0,
            4: lambda: e > 0, 5: lambda: e != 0, 6: lambda: e >= 0,
        }[mask]()

    def _sync(self, decisions):
        """Make the incremental solver hold exactly ``decisions``."""
        st = self.stack
        k = 0
        while k < len(st) and k < len(decisions) and st[k] == decisions[k]:
            k += 1
        if len(st) > k:
            self.solver.pop(len(st) - k)
            del st[k:]
        for a, mask in decisions[k:]:
            self.solver.push()
            if ATOMS[a][2] == 1:
                self.solver.add(self.lit(a, mask))
            st.append((a, mask))

    def check(self, decisions, a, mask):
        """-> ('unsat'|'sat'|'unknown', witness or None)"""
        st = self.stats
        st['queries'] += 1
        t0 = time.perf_counter()
        self._sync(decisions)
        linear = ATOMS[a][2] == 1 and all(
            ATOMS[b][2] == 1 for b, _ in decisions
        )
        try:
            s = self.solver
            s.push()
            if ATOMS[a][2] == 1:
                s.add(self.lit(a, mask))
            r = s.check()
            if r == z3.unsat or linear:
                model = s.model() if r == z3.sat else None
                s.pop()
            else:
                s.pop()
                st['nonlinear_queries'] += 1
                r, model = self._check_nl(decisions, a, mask)
        finally:
            st['solver_s'] += time.perf_counter() - t0
        if r == z3.unsat:
            st['unsat'] += 1
            return 'unsat', None
        if r == z3.sat:
            st['sat'] += 1
            return 'sat', self._witness(model, decisions + [(a, mask)])
        st['unknown'] += 1
        return 'unknown', None

    def _check_nl(self, decisions, a, mask, extra=()):
        s = z3.SolverFor('QF_NRA', ctx=self.ctx)
        s.set('timeout', self.timeout_ms)
        merged = {}
        for b, m in decisions:
            merged[b] = merged.get(b, 7) & m
        merged[a] = merged.get(a, 7) & mask
        for b, m in merged.items():
            if m == 0:
                return z3.unsat, None
            s.add(self.lit(b, m))
        for e in extra:
            s.add(e)
        r = s.check()
        return r, (s.model() if r == z3.sat else None)

    def _witness(self, model, decisions):
        w = self._rational(model)
        if w is not None:
            return w
        # algebraic model: look for a rational point of the same cell
        for i in range(len(self.vars)):
            v = model.eval(self.vars[i], model_completion=True)
            if z3.is_rational_value(v):
                continue
            for prec in (1, 4, 12, 24):
                approx = v.approx(prec) if hasattr(v, 'approx') else None
                if approx is None:
                    continue
                extra = [self.vars[i] == approx]
                a, mask = decisions[-1]
                r, m2 = self._check_nl(decisions[:-1], a, mask, extra)
                if r == z3.sat:
                    w = self._rational(m2)
                    if w is not None:
                        return w
        self.stats['irrational'] += 1
        return None

    def _rational(self, model):
        out = []
        for v in self.vars:
            x = model.eval(v, model_completion=True)
            if not z3.is_rational_value(x):
                return None
            out.append(RF(x.numerator_as_long(), x.denominator_as_long()))
        return tuple(out)

    # -- forking
    def genuine(self, trace):
        return self.domain + [
            (a, q if ans else ~q & 7) for a, q, ans, forced in trace if not forced
        ]

    def decide(self, run, atom, q):
        st = self.stats
        st['decisions'] += 1
        nq = ~q & 7
        decisions = self.genuine(run.trace)
        w = run.witness
        if w is not None:
            v = sign_of(p_eval(ATOMS[atom][1], w))
            side = bool(v & q)
            r, model = self.check(decisions, atom, nq if side else q)
            if r == 'unsat':
                return (atom, q, side, True)
            if r == 'unknown':
                self.unknown_notes.append(
                    (str(decisions)[:300], atom, q, not side)
                )
            else:
                self.work.append(
                    (run.trace + [(atom, q, not side, False)], model)
                )
                if model is not None:
                    self.forks.setdefault(atom, (w, model))
            return (atom, q, side, False)
        r1, m1 = self.check(decisions, atom, q)
        r2, m2 = self.check(decisions, atom, nq)
        if r1 == 'unsat' and r2 == 'unsat':
            raise Infeasible('path condition is unsatisfiable')
        if r1 == 'unsat':
            return (atom, q, False, True)
        if r2 == 'unsat':
            return (atom, q, True, True)
        if r1 == 'sat':
            if r2 == 'sat':
                self.work.append(
                    (run.trace + [(atom, q, False, False)], m2)
                )
            run.witness = m1
            return (atom, q, True, False)
        run.witness = m2
        return (atom, q, False, False)

    def close_points(self):
        """Points of the domain hardly off the surfaces on which decisions
        change: where rounded numbers tell another story than exact ones."""
        for atom, (u, v) in self.forks.items():
            poly = ATOMS[atom][1]
            at = lambda t: tuple(a + (b - a) * t for a, b in zip(u, v))
            su, sv = sign_of(p_eval(poly, u)), sign_of(p_eval(poly, v))
            if su == sv:
                continue
            lo, hi = RF(0), RF(1)
            if ZER in (su, sv):
                # one of them is on the surface
                zero, other = (u, v) if su == ZER else (v, u)
                for depth in (60, 30):
                    t = RF(1, 2 ** depth)
                    yield tuple(a + (b - a) * t for a, b in zip(zero, other))
                    yield tuple(a - (b - a) * t for a, b in zip(zero, other))
                continue
            for depth in range(1, 61):
                mid = (lo + hi) / 2
                sm = sign_of(p_eval(poly, at(mid)))
                if sm == ZER:
                    t = (hi - lo) / 2 / 2 ** max(60 - depth, 20)
                    yield at(mid)
                    yield at(mid - t)
                    yield at(mid + t)
                    break
                if sm == su:
                    lo = mid
                else:
                    hi = mid
                if depth in (30, 60):
                    yield at(lo)
                    yield at(hi)

    def neighbours(self, witnesses):
        """Points hardly off a surface, a single parameter away from points
        of paths: of the surfaces on which decisions change, and of those on
        which two parameters coincide."""
        n = self.nparams
        polys = [ATOMS[a][1] for a in self.forks]
        for i in range(n):
            for j in range(i):
                polys.append({
                    tuple(int(k == i) for k in range(n)): RF(1),
                    tuple(int(k == j) for k in range(n)): RF(-1),
                })
        seen = set()
        for w in witnesses:
            for poly in polys:
                for i in range(n):
                    if max(m[i] for m in poly) != 1:
                        continue
                    b = p_eval(poly, w[:i] + (RF(0),) + w[i + 1:])
                    a = p_eval(poly, w[:i] + (RF(1),) + w[i + 1:]) - b
                    if not a:
                        continue
                    x = -b / a
                    key = w[:i] + (x,) + w[i + 1:]
                    if key in seen:
                        continue
                    seen.add(key)
                    t = RF(1, 2 ** (60 if x else 1100))
                    yield w[:i] + (x - t,) + w[i + 1:]
                    yield w[:i] + (x + t,) + w[i + 1:]

    def in_domain(self, point):
        return all(
            sign_of(p_eval(ATOMS[a][1], point)) & m for a, m in self.domain
        )

    # -- driving
    def start(self):
        """Initial work item: the whole (constrained) parameter domain."""
        scalar.set_run(None, self.nparams)
        params = [scalar.param(i, self.nparams) for i in range(self.nparams)]
        facts = {}
        decisions = []
        if self._domain_src:
            for expr, mask in self._domain_src(*params):
                content, factors = scalar.factor(expr.n)
                assert len(factors) == 1, 'domain facts must be irreducible'
                a = factors[0][0]
                m = mask if content > 0 else scalar._FLIP[mask]
                facts[a] = facts.get(a, 7) & m
                decisions.append((a, m))
        self.domain = decisions
        self.domain_facts = facts
        s = z3.Solver(ctx=self.ctx)
        for a, m in decisions:
            s.add(self.lit(a, m))
        r = s.check()
        assert r == z3.sat, 'empty domain'
        self.work.append(([], self._rational(s.model())))

    def run_path(self, scene, prefix, witness, time_limit):
        run = Run(self, prefix, witness, self.domain_facts)
        scalar.set_run(run, self.nparams)
        params = [scalar.param(i, self.nparams) for i in range(self.nparams)]

        def on_alarm(signum, frame):
            raise PathLimit('time')

        old = signal.signal(signal.SIGALRM, on_alarm)
        try:
            # raises once more in case that the first exception gets lost
            signal.setitimer(signal.ITIMER_REAL, time_limit, 10)
            try:
                outcome, error = scene(params), None
            except PathLimit as e:
                outcome, error = None, e
            except Infeasible:
                self.stats['infeasible'] += 1
                outcome, error = None, 'infeasible'
            except Nondeterminism:
                if not run.approximate:
                    raise
                # values fixed at the witness differ from one run to another
                outcome, error = None, scalar.SymbolicEscape('fixed values')
            except BaseException as e:  # noqa
                if isinstance(e, KeyboardInterrupt):
                    raise
                outcome, error = None, e
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except PathLimit as e:
            # the alarm went off on the way out
            signal.setitimer(signal.ITIMER_REAL, 0)
            outcome, error = None, e
        finally:
            signal.signal(signal.SIGALRM, old)
        self.stats['paths'] += 1
        return run, outcome, error


def dump_trace(trace):
    return [(ATOMS[a][0], q, ans, forced) for a, q, ans, forced in trace]


def load_trace(items):
    return [(_atom_id(k), q, ans, forced) for k, q, ans, forced in items]
