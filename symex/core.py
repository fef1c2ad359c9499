"""Symbolic execution core: path exploration by re-execution, SMT-decided branches.

The engine runs *real Python code* (loaded through symex.rewrite) with proxy
objects in place of inputs.  Every place where a proxy reaches a truth test is
a decision point: the solver says which sides are feasible under the path
condition, one side is taken and the other is queued.  Nothing is sampled: a
side is dropped only on an `unsat` answer.
"""
import os
import sys
import time

import z3


# ---------------------------------------------------------------- control flow
class Control(BaseException):
    """Engine control flow; never to be swallowed by code under test."""


class PathAbort(Control):
    """The current path cannot or need not be continued."""


class PathInfeasible(PathAbort):
    pass


class BudgetExceeded(Control):
    pass


class Engine:
    """State for one path plus the exploration worklist."""

    def __init__(self, branch_timeout=20000, check_timeout=120000, max_paths=200000,
                 deadline=None, enum_limit=600):
        self.branch_timeout = branch_timeout
        self.check_timeout = check_timeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.enum_limit = enum_limit
        # totals
        self.queries = 0
        self.solver_time = 0.0
        self.unknowns = 0
        self.paths = 0
        self.branches = 0
        self.partial_reasons = {}
        self.functions = set()
        # per path
        self.reset_path([])

    # ------------------------------------------------------------ path control
    def reset_path(self, prefix):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_timeout)
        self.solver.set('random_seed', 1)
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.model = None
        self.fresh = 0
        self.aborted = None
        self.pc_len = 0
        self.memo = {}
        self.symkeys = False
        self.pinned = []
        self.decided = {}
        self.keep = []

    def explore(self, run, on_path):
        """run() executes one path; on_path(engine, outcome, exc) is called after each."""
        work = [[]]
        while work:
            if self.paths >= self.max_paths:
                self.mark_partial('max_paths')
                break
            if self.deadline is not None and time.time() > self.deadline:
                self.mark_partial('time budget exhausted with %d paths queued' % len(work))
                break
            prefix = work.pop()
            self.reset_path(prefix)
            self.paths += 1
            exc = None
            try:
                run()
                outcome = 'ok'
            except BudgetExceeded:
                self.mark_partial('time budget exhausted inside a path')
                break
            except PathInfeasible:
                outcome = 'infeasible'
            except PathAbort:
                outcome = 'abort'
            except BaseException as e:          # noqa: an uncaught error of the code/harness
                outcome = 'error'
                exc = e
            if self.aborted is not None and outcome in ('ok', 'error'):
                outcome = 'infeasible' if isinstance(self.aborted, PathInfeasible) else 'abort'
            stop = on_path(self, outcome, exc)
            work.extend(self.pending)
            if stop:
                break

    def mark_partial(self, reason):
        self.partial_reasons[reason] = self.partial_reasons.get(reason, 0) + 1

    def raise_control(self, exc):
        self.aborted = exc
        raise exc

    # ---------------------------------------------------------------- solving
    def _check(self, *assumptions):
        if self.deadline is not None and time.time() > self.deadline + 30:
            raise BudgetExceeded()
        t = time.time()
        r = self.solver.check(*assumptions)
        dt = time.time() - t
        self.solver_time += dt
        self.queries += 1
        if dt > 2 and os.environ.get('SX_SLOW'):
            sys.stderr.write('slow query %.1fs %s\n' % (dt, r))
        return r

    def add(self, cond):
        """Add a definitional or path constraint without feasibility check."""
        self.solver.add(cond)
        self.model = None

    def assume(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            self.raise_control(PathInfeasible())
        self.solver.add(cond)
        if self.model is not None and not self._model_true(cond):
            self.model = None
        if self.pos >= len(self.prefix) and self.model is None:
            r = self._check()
            if r == z3.unsat:
                self.raise_control(PathInfeasible())
            if r == z3.sat:
                self.model = self.solver.model()

    def _model_true(self, cond):
        return z3.is_true(self.model.eval(cond, model_completion=True))

    def need_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                self.raise_control(PathInfeasible())
            else:
                self.unknowns += 1
                self.mark_partial('solver unknown on path condition')
                self.raise_control(PathAbort())
        return self.model

    def branch(self, cond):
        """Decide a symbolic condition; fork when both sides are feasible."""
        if self.aborted is not None:
            raise self.aborted
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.decided:
            # recorded like the others: whether a condition is recognised depends on how z3 orders terms
            self.pos += 1
            self.trace.append(self.decided[key])
            return self.decided[key]
        self.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.solver.add(cond if d else z3.Not(cond))
            self.model = None
            self._note(key, cond, d)
            return d
        self.pos += 1
        self.need_model()
        side = self._model_true(cond)
        c_side, c_other = (cond, z3.Not(cond)) if side else (z3.Not(cond), cond)
        r = self._check(c_other)
        if r == z3.unsat:
            # forced; still recorded so that positions stay aligned on replay
            self.trace.append(side)
            self._note(key, cond, side)
            return side
        if r == z3.unknown:
            self.unknowns += 1
        if TRACE:
            self._where()
        self.pending.append(self.trace + [not side])
        self.trace.append(side)
        self.solver.add(c_side)
        self._note(key, cond, side)
        return side

    def _where(self):
        f = sys._getframe(2)
        out = []
        while f is not None and len(out) < 4:
            fn = f.f_code.co_filename
            if '/symex/' not in fn:
                out.append('%s:%d' % (fn.rsplit('/', 1)[-1], f.f_lineno))
            f = f.f_back
        k = ' < '.join(out)
        FORKS[k] = FORKS.get(k, 0) + 1

    def _note(self, key, cond, val):
        self.keep.append(cond)      # keep the ast alive so that the id stays valid
        self.decided[key] = val

    def feasible(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.model is not None and self._model_true(cond):
            return True
        r = self._check(cond)
        if r == z3.unknown:
            self.unknowns += 1
            return True
        return r == z3.sat

    def valid(self, cond):
        """Is cond implied by the path condition? True / False / None(unknown); sets self.cex."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if self.model is not None and not self._model_true(cond):
            self.cex = self.model
            return False
        self.solver.set('timeout', self.check_timeout)
        r = self._check(z3.Not(cond))
        self.solver.set('timeout', self.branch_timeout)
        if r == z3.unsat:
            return True
        if r == z3.sat:
            self.cex = self.solver.model()
            return False
        self.unknowns += 1
        return None

    def concretize(self, term, what='value'):
        """Enumerate the values of an Int term by forking (complete up to enum_limit)."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        n = 0
        while True:
            if self.aborted is not None:
                raise self.aborted
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(d)
                v, take = d
                self.solver.add(term == v if take else term != v)
                self.model = None
                if take:
                    return v
                n += 1
                continue
            self.pos += 1
            m = self.need_model()
            v = m.eval(term, model_completion=True).as_long()
            self.branches += 1
            r = self._check(term != v)
            if r != z3.unsat:
                if n >= self.enum_limit:
                    self.mark_partial('enumeration limit for %s' % what)
                else:
                    if TRACE:
                        self._where()
                    self.pending.append(self.trace + [(v, False)])
            self.trace.append((v, True))
            self.solver.add(term == v)
            return v

    def pin(self, term, what):
        """Fix a term to one value (loses completeness: recorded)."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        self.mark_partial('pinned: %s' % what)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.solver.add(term == d[1])
            self.model = None
            return d[1]
        self.pos += 1
        v = self.need_model().eval(term, model_completion=True).as_long()
        self.trace.append(('pin', v))
        self.solver.add(term == v)
        return v

    def fresh_name(self, base):
        self.fresh += 1
        return '%s!%d' % (base, self.fresh)


ENGINE = None
TRACE = bool(os.environ.get('SX_FORKS'))
FORKS = {}


def engine() -> Engine:
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e
