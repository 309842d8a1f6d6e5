"""Path exploration: decisions, solver, symbolic scalars.

A *path* is one execution of a harness.  Every branch whose condition
depends on symbolic data is a *decision*: z3 decides which sides are
satisfiable together with the path condition, one side is followed, the
other one is left open.  Exploration is depth first by re-execution; it is
complete when no open side is left, i.e. when every value of the symbolic
inputs within the harness' bounds is covered by an executed path.
"""

import time

import z3


class Control(BaseException):
    """Base of engine control flow; code under test must never eat these."""


class PathInfeasible(Control):
    """An assumption is unsatisfiable on this path."""


class PathCut(Control):
    """Stop this path silently (e.g. S.stop())."""


class BoundExceeded(Control):
    """A path needs more decisions than the stated bound."""


class SolverUnknown(Control):
    """z3 answered unknown."""


class Violation(Control):
    def __init__(self, msg, tape, kind="check"):
        Control.__init__(self, msg)
        self.msg = msg
        self.tape = tape
        self.kind = kind


class Unsupported(Control):
    """The engine cannot encode an operation."""


class Stats(object):
    FIELDS = ("paths", "infeasible", "decisions", "forced", "queries",
              "checks", "assumes", "concretised")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = self.solver_s
        return d


class _Entry(object):
    __slots__ = ("formula", "taken", "open", "kind", "aux")

    def __init__(self, formula, taken, open_, kind, aux=None):
        self.formula = formula
        self.taken = taken
        self.open = open_
        self.kind = kind
        self.aux = aux


class Engine(object):

    """Depth-first explorer with an incremental solver.

    ``stack`` holds one entry per decision or assumption of the current
    path; entry *i* is asserted at solver level *i + 1*.
    """

    def __init__(self, max_decisions=3000, query_timeout_ms=60000):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.stats = Stats()
        self.max_decisions = max_decisions
        self.stack = []
        self.pos = 0
        self.model = None
        self.base_prefix = []
        self.hooks_newpath = []
        self.aborting = None
        self.path_notes = set()
        self.notes = {}

    # -- path life cycle ------------------------------------------------

    def begin(self, prefix=()):
        """Prepare exploring the subtree below ``prefix`` (taken flags)."""
        while self.stack:
            self.stack.pop()
            self.solver.pop()
        self.base_prefix = list(prefix)
        self.started = False

    def next_path(self):
        """Position for the next path; False when the subtree is done."""
        if not self.started:
            self.started = True
        else:
            while self.stack:
                if len(self.stack) <= len(self.base_prefix):
                    return False
                e = self.stack.pop()
                self.solver.pop()
                if e.open:
                    self.solver.push()
                    self.solver.add(z3.Not(e.formula) if e.taken
                                    else e.formula)
                    self.stack.append(
                        _Entry(e.formula, not e.taken, False, e.kind, e.aux))
                    break
            else:
                return False
        self.pos = 0
        self.model = None
        self.aborting = None
        self.path_notes = set()
        for h in self.hooks_newpath:
            h()
        return True

    def finish_path(self):
        """Drop stack entries the path did not reach (never happens on a
        deterministic program; kept as an assertion)."""
        if self.pos < len(self.stack):
            raise Unsupported("non-deterministic re-execution: path used %d "
                              "of %d decisions" % (self.pos, len(self.stack)))

    def open_prefixes(self):
        """Prefixes of all sides left open; closes them here."""
        out = []
        for i, e in enumerate(self.stack):
            if e.open:
                out.append([(x.taken, x.aux) for x in self.stack[:i]] +
                           [(not e.taken, e.aux)])
                e.open = False
        return out

    # -- solver ---------------------------------------------------------

    def _check(self, *extra):
        t = time.perf_counter()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        model = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats.queries += 1
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            self._abort(SolverUnknown(self.solver.reason_unknown()))
        return r == z3.sat, model

    def _abort(self, exc):
        self.aborting = exc
        raise exc

    def get_model(self):
        if self.model is None:
            ok, m = self._check()
            if not ok:
                self._abort(PathInfeasible("unsatisfiable path"))
            self.model = m
        return self.model

    def _push(self, formula, taken, open_, kind, aux=None):
        self.solver.push()
        self.solver.add(formula if taken else z3.Not(formula))
        self.stack.append(_Entry(formula, taken, open_, kind, aux))
        self.pos += 1

    def peek_aux(self):
        """Recorded auxiliary value of the next decision when replaying."""
        if self.pos < len(self.stack):
            return self.stack[self.pos].aux
        if self.pos < len(self.base_prefix):
            return self.base_prefix[self.pos][1]
        return None

    def _replaying(self, formula, kind):
        """Return the recorded entry for this position, if any."""
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
            if e.kind != kind or not e.formula.eq(formula):
                raise Unsupported(
                    "non-deterministic re-execution at decision %d: %s vs %s"
                    % (self.pos, e.formula, formula))
            self.pos += 1
            self.model = None
            return e
        return None

    def decide(self, formula, aux=None):
        """Branch on ``formula``; return the side this path follows."""
        if self.aborting is not None:
            raise self.aborting
        if formula is True or formula is False:
            return formula
        if z3.is_true(formula):
            return True
        if z3.is_false(formula):
            return False
        e = self._replaying(formula, "d")
        if e is not None:
            return e.taken
        if len(self.stack) >= self.max_decisions:
            self._abort(BoundExceeded(
                "more than %d decisions on a path" % self.max_decisions))
        self.stats.decisions += 1
        if self.pos < len(self.base_prefix):
            taken = self.base_prefix[self.pos][0]
            self._push(formula, taken, False, "d", aux)
            self.model = None
            return taken
        m = self.get_model()
        v = m.eval(formula, model_completion=True)
        if z3.is_true(v):
            side = True
        elif z3.is_false(v):
            side = False
        else:
            self._abort(SolverUnknown("model does not decide %s" % formula))
        other, om = self._check(z3.Not(formula) if side else formula)
        if not other:
            self.stats.forced += 1
            self._push(formula, side, False, "d", aux)
            return side
        # follow True first so that exploration order does not depend on
        # the model z3 happened to pick
        if not side:
            self.model = om
        self._push(formula, True, True, "d", aux)
        return True

    def assume(self, formula):
        if self.aborting is not None:
            raise self.aborting
        if formula is True:
            return
        if formula is False:
            self._abort(PathInfeasible("assumption is false"))
        formula = z3.simplify(formula)
        if z3.is_true(formula):
            return
        if z3.is_false(formula):
            self._abort(PathInfeasible("assumption is false"))
        if self._replaying(formula, "a") is not None:
            return
        self.stats.assumes += 1
        old = self.model
        self._push(formula, True, False, "a")
        if old is not None and \
                z3.is_true(old.eval(formula, model_completion=True)):
            return
        self.model = None
        if self.pos <= len(self.base_prefix):
            return
        ok, m = self._check()
        if not ok:
            self._abort(PathInfeasible("assumption unsatisfiable"))
        self.model = m

    def declare(self, formula):
        """Domain constraint of a fresh variable (always satisfiable)."""
        if self.aborting is not None:
            raise self.aborting
        if self._replaying(formula, "v") is not None:
            return
        self._push(formula, True, False, "v")
        self.model = None

    def satisfiable(self, formula):
        """One-off query under the path condition; (sat?, model)."""
        if formula is True:
            return True, self.get_model()
        if formula is False:
            return False, None
        return self._check(formula)

    def note(self, text):
        self.path_notes.add(text)
        self.notes[text] = self.notes.get(text, 0) + 1


ENGINE = None


def set_engine(e):
    global ENGINE
    ENGINE = e


# -- symbolic scalars ------------------------------------------------------

class SBool(object):
    """A symbolic boolean; truth value is a decision."""

    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ENGINE.decide(self.f)

    def __eq__(self, other):
        if isinstance(other, SBool):
            return mkbool(self.f == other.f)
        if other is True:
            return self
        if other is False:
            return mkbool(z3.Not(self.f))
        if isinstance(other, (int, float)):
            return bool(self) == other
        return False

    def __ne__(self, other):
        return snot(self.__eq__(other))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, other):
        return sand(self, other)
    __rand__ = __and__

    def __or__(self, other):
        return sor(self, other)
    __ror__ = __or__

    def __xor__(self, other):
        if isinstance(other, SBool):
            return mkbool(z3.Xor(self.f, other.f))
        if other is True:
            return snot(self)
        if other is False:
            return self
        return bool(self) ^ other
    __rxor__ = __xor__

    def __invert__(self):
        return ~bool(self)

    # as a number: case split
    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o

    def __rmul__(self, o):
        return o * int(bool(self))

    def __neg__(self):
        return -int(bool(self))

    def __lt__(self, o):
        return int(bool(self)) < o

    def __le__(self, o):
        return int(bool(self)) <= o

    def __gt__(self, o):
        return int(bool(self)) > o

    def __ge__(self, o):
        return int(bool(self)) >= o

    def __repr__(self):
        return "True" if bool(self) else "False"

    def __format__(self, spec):
        return format(bool(self), spec)


def mkbool(f):
    if f is True or f is False:
        return f
    if isinstance(f, SBool):
        return f
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return SBool(f)


def fml(b):
    """z3 formula / python bool of a truth value."""
    if isinstance(b, SBool):
        return b.f
    return bool(b)


def snot(b):
    if isinstance(b, SBool):
        return mkbool(z3.Not(b.f))
    return not b


def sand(*bs):
    fs = []
    for b in bs:
        if isinstance(b, SBool):
            fs.append(b.f)
        elif not b:
            return False
    if not fs:
        return True
    return SBool(fs[0]) if len(fs) == 1 else mkbool(z3.And(*fs))


def sor(*bs):
    fs = []
    for b in bs:
        if isinstance(b, SBool):
            fs.append(b.f)
        elif b:
            return True
    if not fs:
        return False
    return SBool(fs[0]) if len(fs) == 1 else mkbool(z3.Or(*fs))


def simplies(a, b):
    return sor(snot(a), b)


class SInt(object):
    """A symbolic mathematical integer."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _o(x):
        if isinstance(x, SInt):
            return x.e
        if isinstance(x, bool):
            return z3.IntVal(int(x))
        if isinstance(x, int):
            return z3.IntVal(x)
        if isinstance(x, float) and x == int(x):
            return z3.IntVal(int(x))
        return None

    def _cmp(self, other, op):
        o = self._o(other)
        if o is None:
            return NotImplemented
        return mkbool(op(self.e, o))

    def __eq__(self, other):
        o = self._o(other)
        if o is None:
            return False
        return mkbool(self.e == o)

    def __ne__(self, other):
        return snot(self.__eq__(other))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _arith(self, other, op):
        o = self._o(other)
        if o is None:
            return NotImplemented
        return mkint(op(self.e, o))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.e / z3.IntVal(o))
        return concrete_int(self) // o

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.e % z3.IntVal(o))
        return concrete_int(self) % o

    def __neg__(self):
        return mkint(-self.e)

    def __abs__(self):
        return self if self >= 0 else -self

    def __bool__(self):
        return ENGINE.decide(z3.simplify(self.e != 0))

    def __index__(self):
        return concrete_int(self)

    __int__ = __index__

    def __hash__(self):
        return hash(concrete_int(self))

    def __float__(self):
        return float(concrete_int(self))

    def __str__(self):
        return str(concrete_int(self))

    __repr__ = __str__

    def __format__(self, spec):
        return format(concrete_int(self), spec)


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def concrete_int(x):
    """Case split on the value of ``x`` (finite domains only)."""
    if not isinstance(x, SInt):
        return x
    for _ in range(256):
        v = ENGINE.peek_aux()
        if v is None:
            v = ENGINE.get_model().eval(
                x.e, model_completion=True).as_long()
        if ENGINE.decide(z3.simplify(x.e == v), aux=v):
            return v
    ENGINE._abort(Unsupported("integer with too many values made concrete"))
