"""Path-exploring symbolic execution core.

One `Engine` explores one harness instance depth first.  Each symbolic branch
asks z3 which of its two sides the path condition admits; both admissible
sides are explored.  Nothing is raised to steer the code under test (it has
`finally: return` blocks that swallow anything): a branch always returns a
bool, and a path that ran out of budget is flagged dead and dropped.
"""
import os
import sys
import time
import z3

BV = 16
FORKS = {} if os.environ.get("VF_FORKS") else None  # where paths fork, for finding out what costs them


def where_forked():
    f = sys._getframe(2)
    while f is not None and "/vf/" in f.f_code.co_filename:
        f = f.f_back
    k = "%s:%d" % (f.f_code.co_filename[-30:], f.f_lineno) if f else "?"
    FORKS[k] = FORKS.get(k, 0) + 1


class DeadPath(BaseException):
    """The current path exceeded its budget; it is reported as not explored."""


class Unsupported(BaseException):
    """An operation the encoding does not cover; the path counts as undecided."""


class Nondeterminism(Exception):
    pass


class Decision:
    __slots__ = ("cond", "value", "pending", "pushed")

    def __init__(self, cond, value, pending, pushed):
        self.cond, self.value, self.pending, self.pushed = cond, value, pending, pushed


class Engine:
    current = None

    def __init__(self, max_branches=20000, solver_timeout_ms=20000, deadline=None):
        self.solver = z3.Solver()
        self.solver.set("timeout", solver_timeout_ms)
        self.trace = []          # list[Decision]
        self.pos = 0
        self.replay_len = 0
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.forks = 0
        self.max_branches = max_branches
        self.path_branches = 0
        self.deadline = deadline
        self.dead = None
        self.undecided = []
        self.decided = {}
        self.keep = []
        self.model = None
        self.fresh_n = 0
        self.unknowns = 0
        self.realised = 0
        self.functions = set()

    # ---- path control -------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.replay_len = len(self.trace)
        self.path_branches = 0
        self.dead = None
        self.decided = {}
        self.known_val = {}
        self.keep = []
        self.model = None
        self.fresh_n = 0

    def next_path(self):
        """Backtrack to the deepest decision with an unexplored side."""
        while self.trace:
            d = self.trace[-1]
            if d.pushed:
                self.solver.pop()
            if d.pending:
                d.pending = False
                d.value = not d.value
                self.solver.push()
                d.pushed = True
                self.solver.add(d.cond if d.value else z3.Not(d.cond))
                self.model = None
                return True
            self.trace.pop()
        return False

    def in_replay(self):
        return self.pos < self.replay_len

    def add(self, expr):
        """Add a constraint (domain constraint or assumption) to the path."""
        if self.in_replay():
            return
        self.solver.add(expr)
        self.model = None

    def check(self, *assumps):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*assumps)
        self.solver_s += time.time() - t
        return r

    def _budget(self):
        self.path_branches += 1
        self.branches += 1
        if self.path_branches > self.max_branches:
            self.dead = "branch budget"
        if self.deadline and time.time() > self.deadline:
            self.dead = "time budget"
        if self.dead:
            raise DeadPath(self.dead)

    def branch(self, cond):
        """Decide a symbolic condition on this path, forking when both sides are feasible."""
        if self.dead:
            raise DeadPath(self.dead)
        cid = cond.get_id()
        if cid in self.decided:
            return self.decided[cid]
        if self.pos < self.replay_len:
            d = self.trace[self.pos]
            if not d.cond.eq(cond) and not self._same(d.cond, cond):
                self.dead = "nondeterminism"
                raise Nondeterminism("replay diverged: %s vs %s" % (d.cond, cond))
            self.pos += 1
            self._learn(cond, cid, d.value)
            self.keep.append(cond)
            return d.value
        self._budget()
        value, pending, forced = self._decide(cond)
        d = Decision(cond, value, pending, False)
        if not forced:
            self.solver.push()
            d.pushed = True
            self.solver.add(cond if value else z3.Not(cond))
            self.forks += 1
            if FORKS is not None and pending:
                where_forked()
        self.trace.append(d)
        self.pos += 1
        self.replay_len = len(self.trace)
        self._learn(cond, cid, value)
        self.keep.append(cond)
        return value

    def _same(self, a, b):
        """the simplifier orders terms by their age, so the same condition may come back written another way"""
        t = time.time()
        o = z3.Solver()
        o.set("timeout", 2000)
        o.add(z3.Xor(a, b))
        r = o.check()
        self.queries += 1
        self.solver_s += time.time() - t
        return r == z3.unsat

    def _learn(self, cond, cid, value):
        self.decided[cid] = value
        if value and z3.is_eq(cond):
            for x, v in ((cond.arg(0), cond.arg(1)), (cond.arg(1), cond.arg(0))):
                if z3.is_bv_value(v) or z3.is_int_value(v):
                    self.known_val[x.get_id()] = v

    def _decide(self, cond):
        m = self.model
        first = None
        if m is None:
            r = self.check()
            if r == z3.unsat:
                self.dead = "infeasible"
                raise DeadPath("infeasible")
            if r == z3.unknown:
                self.unknowns += 1
                self.dead = "solver unknown"
                raise DeadPath(self.dead)
            m = self.model = self.solver.model()
        first = z3.is_true(m.eval(cond, model_completion=True))
        r = self.check(z3.Not(cond) if first else cond)
        if r == z3.unsat:
            return first, False, True
        if r == z3.unknown:
            self.unknowns += 1
            self.dead_note("solver unknown on a branch side")
            return first, False, False
        return first, True, False

    def dead_note(self, why):
        self.undecided.append(why)

    def feasible_model(self):
        if self.model is None:
            r = self.check()
            if r != z3.sat:
                return None
            self.model = self.solver.model()
        return self.model

    def possible(self, cond):
        """'sat'/'unsat'/'unknown' of pc and cond, with the model if sat."""
        r = self.check(cond)
        if r == z3.sat:
            return "sat", self.solver.model()
        if r == z3.unsat:
            return "unsat", None
        self.unknowns += 1
        return "unknown", None

    def concretize(self, expr):
        """Pick a value for expr, forking so every other value is explored too."""
        v = self._simple_value(expr)
        if v is not None:
            return v
        v = self.known_val.get(expr.get_id())
        if v is not None:
            return v
        self.realised += 1
        while True:
            if self.in_replay():
                c = self.trace[self.pos].cond
                if z3.is_eq(c) and c.arg(0).eq(expr):
                    val = c.arg(1)
                elif z3.is_eq(c) and c.arg(1).eq(expr):
                    val = c.arg(0)
                else:
                    self.dead = "nondeterminism"
                    raise Nondeterminism("replay diverged in concretize: %s vs %s" % (c, expr))
            else:
                m = self.feasible_model()
                if m is None:
                    self.dead = "infeasible"
                    raise DeadPath(self.dead)
                val = m.eval(expr, model_completion=True)
            if self.branch(expr == val):
                return val

    def _simple_value(self, expr):
        s = z3.simplify(expr)
        if z3.is_int_value(s) or z3.is_bv_value(s) or z3.is_true(s) or z3.is_false(s):
            return s
        return None

    def name(self, base):
        self.fresh_n += 1
        return "%s!%d" % (base, self.fresh_n)


def eng():
    return Engine.current
