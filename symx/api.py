"""Symbolic implementation of the harness interface."""

import z3

from . import core
from . import strings as st
from .core import SBool, SInt, Violation, PathCut, fml
from .hapi import HarnessBase, plain
from .strings import T


class SymS(HarnessBase):

    symbolic = True

    def __init__(self, engine, known=()):
        HarnessBase.__init__(self)
        self.e = engine
        self.inputs = []          # (label, kind, payload)
        self.known = known
        self.known_hits = {}

    def instrument(self, package):
        from . import loader
        self.cleanup(loader.replace_package(package))

    # -- inputs ---------------------------------------------------------

    def pick(self, label, options):
        lb = self._label(label)
        n = len(options)
        if n == 1:
            return options[0]
        v = z3.Int("pick!" + lb)
        self.e.declare(z3.And(v >= 0, v < n))
        self.inputs.append((lb, "int", SInt(v)))
        lo, hi = 0, n
        # binary case split
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if self.e.decide(v < mid):
                hi = mid
            else:
                lo = mid
        return options[lo]

    def name(self, label, domain=None, extra=()):
        lb = self._label(label)
        v = z3.Int("name!" + lb)
        if domain is not None:
            self.e.declare(st.in_domain(v, [T.see(x) for x in domain]))
        s = st.new_atom(v, tuple(domain) if domain is not None else None,
                        extra)
        self.inputs.append((lb, "str", s))
        return s

    def text(self, label, maxlen, minlen=0, alphabet=None):
        lb = self._label(label)
        dom = tuple(alphabet) if alphabet is not None else st.DEFAULT_DOMAIN
        n = self.pick(lb + ".len", list(range(minlen, maxlen + 1)))
        out = []
        for i in range(n):
            v = z3.Int("char!%s!%d" % (lb, i))
            self.e.declare(st.in_domain(v, dom))
            out.append(st.new_char(v, dom))
        s = "".join(out)
        self.inputs.append((lb, "str", s))
        return s

    def int(self, label, lo, hi):
        lb = self._label(label)
        v = z3.Int("int!" + lb)
        self.e.declare(z3.And(v >= lo, v <= hi))
        x = SInt(v)
        self.inputs.append((lb, "int", x))
        return x

    # -- assumptions, assertions ------------------------------------------

    def assume(self, cond):
        self.e.assume(fml(cond))

    def reject(self):
        self.e._abort(core.PathInfeasible("rejected"))

    def check(self, cond, msg, finding=None):
        self.e.stats.checks += 1
        f = fml(cond)
        if f is True:
            return
        bad, model = self.e.satisfiable(True if f is False else z3.Not(f))
        if bad:
            if finding is not None and finding in self.known:
                self.known_hits[finding] = msg
                if f is False:
                    self.e._abort(PathCut("known finding"))
                self.e.assume(f)
                return
            v = Violation(msg, self.tape(model))
            self.e.aborting = v
            raise v

    def fail(self, msg, finding=None):
        self.check(False, msg, finding)

    # -- observations -----------------------------------------------------

    def log(self, label, value):
        self.logs.append([label, snapshot(value)])

    def tape(self, model):
        return {lb: under(model, x) for lb, _, x in self.inputs}

    def logs_under(self, model):
        return [[lb, under(model, v)] for lb, v in self.logs]


def snapshot(x):
    t = type(x)
    if t is list:
        return [snapshot(y) for y in x]
    if t is tuple:
        return tuple(snapshot(y) for y in x)
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in dict.items(x)}
    if isinstance(x, (set, frozenset)):
        return frozenset(x)
    return x


def under(model, x):
    def leaf(v):
        t = type(v)
        if isinstance(v, str):
            return st.concrete_under(model, str.__str__(v))
        if t is SInt:
            return model.eval(v.e, model_completion=True).as_long()
        if t is SBool:
            return z3.is_true(model.eval(v.f, model_completion=True))
        if t is bytes:
            try:
                return ["bytes", st.concrete_under(model, v.decode('utf-8'))]
            except UnicodeDecodeError:
                pass
        return NotImplemented
    return plain(x, leaf)
