"""Harness interface shared by symbolic exploration and native replay.

A harness is a function ``h(S, **config)``; ``S`` provides inputs and
records observations.  In symbolic mode inputs are symbolic values
(api.SymS); in native mode they come from a tape (NativeS) and the code
under test is the unmodified package run by the ordinary interpreter.
"""

import io
import os
import random
import sys

REG = {}        # property id -> [Harness]


class Harness(object):
    def __init__(self, prop, fn, bounds, quick, thorough, covers, outside,
                 history=True):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self.bounds = bounds
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.covers = covers
        self.outside = outside
        self.history = history

    def configs(self, tier):
        return self.thorough if tier == "thorough" else self.quick


def harness(prop, bounds, quick=({},), thorough=None, covers=(), outside="",
            history=True):
    def deco(fn):
        REG.setdefault(prop, []).append(Harness(
            prop, fn, bounds, list(quick),
            None if thorough is None else list(thorough), list(covers),
            outside, history))
        return fn
    return deco


class CheckFailed(BaseException):
    pass


class Rejected(BaseException):
    pass


class KnownFinding(BaseException):
    pass


class HarnessBase(object):

    symbolic = False

    def __init__(self):
        self.labels = {}
        self.logs = []
        self.covered = set()
        self.failures = []
        self.cleanups = []

    def _label(self, label):
        n = self.labels.get(label, 0)
        self.labels[label] = n + 1
        return label if n == 0 else "%s~%d" % (label, n)

    def cover(self, label):
        self.covered.add(label)

    def cleanup(self, f):
        self.cleanups.append(f)

    def instrument(self, package):
        """Execute a library's code symbolically, too."""

    def run_cleanups(self):
        while self.cleanups:
            self.cleanups.pop()()

    def bool(self, label):
        return self.pick(label, [False, True])

    def count(self, label, lo, hi):
        """A small concrete number (case split)."""
        return self.pick(label, list(range(lo, hi + 1)))

    def subset(self, label, items):
        return [x for i, x in enumerate(items)
                if self.bool("%s.%d" % (label, i))]

    def permutation(self, label, items):
        rest = list(items)
        out = []
        while len(rest) > 1:
            i = self.pick("%s.%d" % (label, len(out)), list(range(len(rest))))
            out.append(rest.pop(i))
        return out + rest


class NativeS(HarnessBase):

    def __init__(self, tape, known=()):
        HarnessBase.__init__(self)
        self.tape = tape
        self.known = known

    def pick(self, label, options):
        i = self.tape.get(self._label(label), 0)
        return options[i if 0 <= i < len(options) else 0]

    def name(self, label, domain=None, extra=()):
        lb = self._label(label)
        return self.tape.get(lb, domain[0] if domain else "zqx")

    def text(self, label, maxlen, minlen=0, alphabet=None):
        lb = self._label(label)
        return self.tape.get(
            lb, chr(alphabet[0]) * minlen if alphabet else "a" * minlen)

    def int(self, label, lo, hi):
        return self.tape.get(self._label(label), lo)

    def assume(self, cond):
        if not cond:
            raise Rejected()

    def reject(self):
        raise Rejected()

    def check(self, cond, msg, finding=None):
        if not cond:
            if finding is not None and finding in self.known:
                raise KnownFinding(msg)
            self.failures.append((msg, finding))
            raise CheckFailed(msg)

    def fail(self, msg, finding=None):
        self.check(False, msg, finding)

    def log(self, label, value):
        self.logs.append([label, plain(value)])


class SampledS(NativeS):
    """Inputs drawn from a seed, for the run before the examined one."""

    NAMES = ['zqx', 'zqy', 'zqz', 'zqv', 'zqw', 'zqu']

    def __init__(self, seed, known=()):
        NativeS.__init__(self, {}, known)
        self.seed = seed

    def _draw(self, label):
        return random.Random('%d %s' % (self.seed, self._label(label)))

    def pick(self, label, options):
        return options[self._draw(label).randrange(len(options))]

    def name(self, label, domain=None, extra=()):
        return self._draw(label).choice(
            list(domain) if domain else self.NAMES + list(extra))

    def text(self, label, maxlen, minlen=0, alphabet=None):
        r = self._draw(label)
        return ''.join(chr(r.choice(alphabet or range(32, 127)))
                       for _ in range(r.randint(minlen, maxlen)))

    def int(self, label, lo, hi):
        return self._draw(label).randint(lo, hi)


def first_run(h, config, seed, env, known=()):
    """A concrete run whose module level state is kept; returns where its
    scratch directory was and whether the harness got to its end."""
    S = SampledS(seed, known)
    env.reset(S)
    cwd = os.getcwd()
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    done = False
    try:
        h.fn(S, **config)
        done = True
    except (Exception, CheckFailed, Rejected, KnownFinding, SystemExit,
            env.Crash):
        pass
    finally:
        sys.stdout, sys.stderr = so, se
        place = env.ST.scratch
        try:
            S.run_cleanups()
        finally:
            env.restore()
            os.chdir(cwd)
    return place, done


def plain(x, leaf=None):
    """JSON-friendly rendering used to compare symbolic and native runs."""
    t = type(x)
    if leaf is not None:
        r = leaf(x)
        if r is not NotImplemented:
            return r
    if isinstance(x, str):
        return str(x)
    if t is bytes:
        try:
            return ["bytes", x.decode('utf-8')]
        except UnicodeDecodeError:
            return ["bytes", repr(x)]
    if isinstance(x, (list, tuple)):
        return [plain(y, leaf) for y in x]
    if isinstance(x, dict):
        return ["dict", [[plain(k, leaf), plain(v, leaf)]
                         for k, v in x.items()]]
    if isinstance(x, (set, frozenset)):
        return ["set", sorted([plain(y, leaf) for y in x], key=repr)]
    if x is None or t in (int, float, bool):
        return x
    if isinstance(x, type):
        return ["type", x.__name__]
    if isinstance(x, BaseException):
        return ["exception", t.__name__]
    return ["object", t.__name__]
