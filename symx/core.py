"""Path-forking symbolic execution engine on top of z3.

A harness runs ordinary Python code on proxy values; whenever the code under
test needs the truth value of a symbolic condition, :meth:`Engine.branch` asks
the solver which outcomes are feasible under the current path condition and
explores all of them (depth first, by re-execution; the solver stack is kept
aligned with the decision trail).  At :meth:`Engine.check` the solver decides
PC and not(property); unsat on every path means that the property holds for
every value within the bounds of the harness."""
import time
import z3


class Control(BaseException):
    """Base class for exceptions that steer the exploration."""


class Infeasible(Control):
    """Path condition (after an assumption) is unsatisfiable."""


class Violation(Control):
    def __init__(self, msg, model):
        super().__init__(msg)
        self.msg, self.model = msg, model


class Inconclusive(Control):
    """Solver answered unknown, or the engine does not model something."""


class SymHash(Exception):
    """Attempt to natively hash a symbolic value."""


class Replayed(Control):
    pass


class PathBudget(Control):
    """A path exceeded its step budget (possible nontermination)."""


ENG = None  # the current engine


def eng():
    return ENG


class Engine:
    MAXBRANCH = 20000

    def __init__(self, timeout_ms=20000):
        global ENG
        self.solver = z3.SolverFor('QF_LIA') if False else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.trail = []   # [kind, value, alternatives, pushed]
        self.pos = 0
        self.model = None
        self.inputs = {}  # name -> callable(model) -> concrete value
        self.lits = {}
        self.keep = []
        self.stats = dict(paths=0, queries=0, solver_time=0.0, branches=0,
                forks=0, checks=0, infeasible=0, inconclusive=0)
        self.counters = {}
        ENG = self

    # -- solver ----------------------------------------------------------
    def _sat(self, *extra):
        t = time.perf_counter()
        self.stats['queries'] += 1
        r = self.solver.check(*extra)
        self.stats['solver_time'] += time.perf_counter() - t
        if r == z3.unknown:
            raise Inconclusive('solver: unknown (%s)'
                    % self.solver.reason_unknown())
        return r == z3.sat

    def getmodel(self):
        if self.model is None:
            if not self._sat():
                raise Infeasible()
            self.model = self.solver.model()
        return self.model

    def evaltrue(self, cond):
        return z3.is_true(self.getmodel().eval(cond, model_completion=True))

    # -- path bookkeeping -------------------------------------------------
    def startpath(self):
        self.pos = 0
        self.lits = {}
        self.keep = []
        self.inputs = {}
        self.counters = {}
        self.observed = []
        self.reached = set()
        self.npathbranches = 0

    def name(self, name):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def _fixed(self):
        """next trail entry if this decision was already made."""
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            self.pos += 1
            return e
        return None

    def _remember(self, cond, val):
        self.lits[cond.get_id()] = val
        self.keep.append(cond)

    def branch(self, cond):
        """Return truth value of cond on this path; fork if both feasible."""
        if cond is True or cond is False:
            return cond
        v = self.lits.get(cond.get_id())
        if v is not None:
            return v
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.npathbranches += 1
        if self.npathbranches > self.MAXBRANCH:
            raise PathBudget('more than %d branches on one path'
                    % self.MAXBRANCH)
        e = self._fixed()
        if e is not None:
            val = e[1]
            if e[0] == 'p':  # prefix given by another worker: assert
                if e[4]:
                    self.solver.push()
                    self.solver.add(cond if val else z3.Not(cond))
                    self.model = None
                e[0] = 'b'
                e[3] = e[4]
            elif e[0] == 'alt':  # the flipped decision
                self.solver.push()
                self.solver.add(cond if val else z3.Not(cond))
                self.model = None
                e[0] = 'b'
                e[3] = True
            elif e[0] != 'b':
                raise RuntimeError('nondeterministic replay: %r' % (e, ))
            self._remember(cond, val)
            return val
        self.stats['branches'] += 1
        val = self.evaltrue(cond)
        other = z3.Not(cond) if val else cond
        if self._sat(other):
            self.stats['forks'] += 1
            self.trail.append(['b', val, [not val], True, True])
            self.solver.push()
            self.solver.add(cond if val else z3.Not(cond))
        else:
            self.trail.append(['b', val, [], False, False])
        self.pos += 1
        self._remember(cond, val)
        return val

    def choose(self, expr, values):
        """Concretize expr to one of values (explore every feasible one)."""
        e = self._fixed()
        if e is not None:
            val = e[1]
            if e[0] in ('p', 'alt'):
                if e[4]:
                    self.solver.push()
                    self.solver.add(expr == val)
                    self.model = None
                e[3] = e[4]
                e[0] = 'c'
            elif e[0] != 'c':
                raise RuntimeError('nondeterministic replay: %r' % (e, ))
            return val
        self.stats['branches'] += 1
        feas = [v for v in values if self._sat(expr == v)]
        if not feas:
            raise Inconclusive('choose: value outside of declared range')
        if len(feas) > 1:
            # the declared range must be complete
            if self._sat(z3.And([expr != v for v in feas])):
                raise Inconclusive('choose: value outside of declared range')
            self.stats['forks'] += len(feas) - 1
        val = feas[0]
        pushed = len(feas) > 1
        self.trail.append(['c', val, feas[1:], pushed, pushed])
        if pushed:
            self.solver.push()
            self.solver.add(expr == val)
            self.model = None
        self.pos += 1
        return val

    def declare(self, var, constraint=None):
        """Register fresh input variable; its range constraint is asserted
        in the base of the path (idempotent over re-executions)."""
        if constraint is not None:
            self.assume(constraint, fresh=True)

    def assume(self, cond, fresh=False):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        e = self._fixed()
        if e is not None:
            if e[0] in ('p', 'alt'):
                self.solver.push()
                self.solver.add(cond)
                self.model = None
                e[0] = 'a'
                e[3] = True
            elif e[0] != 'a':
                raise RuntimeError('nondeterministic replay: %r' % (e, ))
            return
        self.trail.append(['a', True, [], True, True])
        self.pos += 1
        self.solver.push()
        self.solver.add(cond)
        self.model = None
        if not fresh and not self._sat():
            raise Infeasible()

    def check(self, cond, msg):
        """Assert property: report model of PC and not(cond)."""
        self.stats['checks'] += 1
        if cond is True:
            # decided by the path condition: each disjunct of PC that leads
            # here satisfies the property.
            return
        if cond is False:
            raise Violation(msg, self.getmodel())
        v = self.lits.get(cond.get_id())
        if v is True:
            return
        if self._sat(z3.Not(cond)):
            self.model = self.solver.model()
            raise Violation(msg, self.model)

    # -- exploration ------------------------------------------------------
    def backtrack(self, base):
        """Advance trail to next unexplored alternative; False when done."""
        # entries beyond pos were not consumed (path ended early)
        while len(self.trail) > base:
            e = self.trail[-1]
            if e[3]:
                self.solver.pop()
                self.model = None
            if e[2]:
                v = e[2].pop(0)
                e[1] = v
                e[0] = 'alt'
                e[3] = False  # pushed when consumed
                e[4] = True
                return True
            self.trail.pop()
        return False

    def frontier(self, base):
        """Split off unexplored alternatives as prefixes for other workers."""
        out = []
        for n in range(base, len(self.trail)):
            e = self.trail[n]
            for alt in e[2]:
                pre = [(x[1], x[4]) for x in self.trail[:n]] + [(alt, True)]
                out.append(pre)
            e[2] = []
        return out

    def setprefix(self, prefix):
        while self.trail:
            if self.trail.pop()[3]:
                self.solver.pop()
        self.model = None
        self.trail = [['p', v, [], False, pushed] for v, pushed in prefix]

    def concretize(self, model):
        return {k: f(model) for k, f in self.inputs.items()}
