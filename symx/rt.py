"""Runtime operations the instrumented code calls (see transform.py)."""

import builtins
import codecs
import collections
import enum
import functools
import hashlib
import itertools
import json
import operator
import os
import posix
import re
import string
import sys
import types

import z3

from . import core
from . import strings as st
from .core import (SBool, SInt, sand, sor, snot, mkbool, mkint,
                   concrete_int, Control)
from .strings import has_sym, has_atom, deatom, str_eq, str_lt

NATIVE = object()     # "fall through to the native operation"

FUNCS_ENTERED = set()
INSTRUMENTED = set()      # code objects compiled by transform


# -- symbolic content test --------------------------------------------------

def sym_in(x, depth=3):
    """Does ``x`` (shallow containers included) contain symbolic data?"""
    t = type(x)
    if t is str:
        return has_sym(x)
    if t is SInt or t is SBool:
        return True
    if depth:
        if t is list or t is tuple or isinstance(x, (set, frozenset)):
            return any(sym_in(y, depth - 1) for y in x)
        if isinstance(x, dict):
            return any(sym_in(k, depth - 1) or sym_in(v, depth - 1)
                       for k, v in x.items())
        if t is bytes:
            return bytes_sym(x)
    return False


def bytes_sym(b):
    if b'\xf0' not in b:
        return False
    try:
        return has_sym(b.decode('utf-8'))
    except UnicodeDecodeError:
        return False


def key_sym(k):
    t = type(k)
    if t is str:
        return has_sym(k)
    if t is SInt or t is SBool:
        return True
    if t is tuple or t is frozenset or (
            isinstance(k, (tuple, frozenset)) and
            t.__hash__ in _KEYHASH):
        return any(key_sym(y) for y in k)
    if t is bytes:
        return bytes_sym(k)
    return False


_KEYHASH = (tuple.__hash__, frozenset.__hash__)


def any_key_sym(d):
    for k in d:
        t = type(k)
        if t is str:
            if has_sym(k):
                return True
        elif t is SInt or t is SBool or isinstance(k, (tuple, frozenset)):
            if key_sym(k):
                return True
    return False


class SHash(int):
    """Result of hash() on data that may be symbolic (collision free)."""

    def __new__(cls, struct):
        self = int.__new__(cls, 0)
        self.struct = struct
        return self

    def __eq__(self, other):
        if isinstance(other, SHash):
            return eq(self.struct, other.struct)
        return False

    def __ne__(self, other):
        return snot(self.__eq__(other))

    def __hash__(self):
        return 0

    def _mix(self, op, other, commutative=False):
        if commutative:
            return SHash(_Bag([self, other]))
        return SHash((op, self, other))

    def __xor__(self, o):
        return self._mix('^', o, True)
    __rxor__ = __xor__

    def __add__(self, o):
        return self._mix('+', o, True)
    __radd__ = __add__

    def __mul__(self, o):
        return self._mix('*', o)

    def __rmul__(self, o):
        return self._mix('*', o)

    def __mod__(self, o):
        return self


class _Bag(object):
    def __init__(self, items):
        self.items = []
        for i in items:
            if isinstance(i, SHash) and isinstance(i.struct, _Bag):
                self.items.extend(i.struct.items)
            else:
                self.items.append(i)


# -- equality ---------------------------------------------------------------

_PLAIN = (int, float, bool, type(None), complex)


def is_userclass_eq(x):
    return type(x).__eq__ is not object.__eq__


def eq(a, b):
    """Semantic ``a == b``: bool, SBool, or whatever __eq__ returns."""
    if a is b and type(a) is not float:
        return True
    ta, tb = type(a), type(b)
    if ta is str:
        if tb is str:
            return str_eq(a, b)
        if isinstance(b, str):
            return str_eq(a, str(b))
        if tb in _SIMPLE:
            return False
    elif isinstance(a, str) and isinstance(b, str):
        return str_eq(str.__str__(a), str.__str__(b))
    if ta is SBool or ta is SInt or ta is SHash:
        return a.__eq__(b)
    if tb is SBool or tb is SInt or tb is SHash:
        return b.__eq__(a)
    if ta is _Bag and tb is _Bag:
        return bag_eq(a.items, b.items)
    if ta is bytes and tb is bytes:
        if a == b:
            return True
        if bytes_sym(a) or bytes_sym(b):
            try:
                return str_eq(a.decode('utf-8'), b.decode('utf-8'))
            except UnicodeDecodeError:
                return False
        return False
    if (ta is list and tb is list) or (ta is tuple and tb is tuple) or \
            (isinstance(a, list) and isinstance(b, list) and
             ta.__eq__ is list.__eq__ and tb.__eq__ is list.__eq__) or \
            (isinstance(a, tuple) and isinstance(b, tuple) and
             ta.__eq__ is tuple.__eq__ and tb.__eq__ is tuple.__eq__):
        return seq_eq(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        ea, eb = ta.__eq__, tb.__eq__
        if ea in _DICT_EQ and eb in _DICT_EQ:
            return dict_eq(a, b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return set_eq(a, b)
    if isinstance(a, _VIEWS) and isinstance(b, _VIEWS + (set, frozenset)) or \
            isinstance(b, _VIEWS) and isinstance(a, (set, frozenset)):
        return set_eq(list(a), list(b))
    # rich comparison protocol without native container recursion
    return rich(a, b, '__eq__', '__eq__')


_SIMPLE = {int, float, bool, type(None), list, tuple, dict, set, frozenset,
           bytes, complex}
_DICT_EQ = {dict.__eq__, collections.OrderedDict.__eq__,
            collections.defaultdict.__eq__}
_VIEWS = (type({}.keys()), type({}.items()))


def rich(a, b, op, rop):
    ta, tb = type(a), type(b)
    if tb is not ta and issubclass(tb, ta) and \
            getattr(tb, rop, None) is not getattr(ta, rop, None):
        order = ((b, a, rop), (a, b, op))
    else:
        order = ((a, b, op), (b, a, rop))
    for x, y, o in order:
        m = getattr(type(x), o, None)
        if m is None:
            continue
        if isinstance(m, types.FunctionType):
            r = m(x, y)
        else:
            r = m(x, y)
        if r is not NotImplemented:
            return r
    if op == '__eq__':
        return a is b
    if op == '__ne__':
        return a is not b
    raise TypeError("'%s' not supported between instances of '%s' and '%s'" % (
        {'__lt__': '<', '__le__': '<=', '__gt__': '>', '__ge__': '>='}[op],
        ta.__name__, tb.__name__))


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    acc = []
    for x, y in zip(a, b):
        r = eq(x, y)
        if isinstance(r, SBool):
            acc.append(r)
        elif not r:
            return False
    return sand(*acc)


def dict_eq(a, b):
    if len(a) != len(b):
        return False
    if isinstance(a, collections.OrderedDict) and \
            isinstance(b, collections.OrderedDict):
        return seq_eq([list(i) for i in a.items()],
                      [list(i) for i in b.items()])
    acc = []
    for k in list(a):
        kk = dfind(b, k)
        if kk is MISSING:
            return False
        r = eq(dict.__getitem__(a, k), dict.__getitem__(b, kk))
        if isinstance(r, SBool):
            acc.append(r)
        elif not r:
            return False
    return sand(*acc)


def set_eq(a, b):
    if len(a) != len(b):
        return False
    if not any_key_sym(a) and not any_key_sym(b):
        return set(a) == set(b)
    return sand(*[contains_formula(b, x) for x in a])


def bag_eq(a, b):
    if len(a) != len(b):
        return False
    rest = list(b)
    for x in a:
        for i, y in enumerate(rest):
            r = eq(x, y)
            if r:
                del rest[i]
                break
        else:
            return False
    return True


VARIABLE = re.compile(r'/[^\s\'"]*?xv-scratch-[^/\'"]*| at 0x[0-9a-f]+')


def set_order(s):
    """Elements of a set in the same order in every execution."""
    items = list(s)
    if len(items) > 1:
        items.sort(key=lambda x: VARIABLE.sub('', repr(x)))
    return items


def contains_formula(container, x):
    """``x in container`` for sequences/sets as a formula."""
    acc = []
    if type(container) in (set, frozenset):
        container = set_order(container)
    for y in container:
        r = eq(y, x)
        if r is True:
            return True
        if isinstance(r, SBool):
            acc.append(r)
        elif r:
            return True
    return sor(*acc)


def eq_op(a, b):
    ta = type(a)
    if ta is str and type(b) is str:
        if a == b:
            return True
        return str_eq(a, b)
    return eq(a, b)


def ne_op(a, b):
    ta = type(a)
    if ta is str and type(b) is str:
        if a == b:
            return False
        return snot(str_eq(a, b))
    m = type(a).__ne__
    if isinstance(m, types.FunctionType):
        r = m(a, b)
        if r is not NotImplemented:
            return r
    r = eq(a, b)
    if isinstance(r, SBool):
        return snot(r)
    return not r


def in_op(x, c):
    return _contains(c, x)


def nin_op(x, c):
    r = _contains(c, x)
    return snot(r)


def _contains(c, x):
    t = type(c)
    if t is str:
        if type(x) is not str:
            return x in c
        if not has_sym(c) and not has_sym(x):
            return x in c
        return str_contains(c, x)
    if isinstance(c, dict):
        m = type(c).__contains__
        if isinstance(m, types.FunctionType):
            return m(c, x)
        return dict_contains(c, x)
    if isinstance(c, (set, frozenset)):
        return set_contains(c, x)
    if t is list or t is tuple or t is collections.deque:
        return contains_formula(c, x)
    if isinstance(c, type({}.keys())):
        return set_contains(c, x)
    if isinstance(c, (type({}.values()), type({}.items()), map, filter, zip,
                      types.GeneratorType)) or isinstance(c, (list, tuple)):
        return contains_formula(c, x)
    if isinstance(c, bytes) and isinstance(x, bytes):
        if bytes_sym(c) or bytes_sym(x):
            return str_contains(c.decode('utf-8'), x.decode('utf-8'))
        return x in c
    m = getattr(t, '__contains__', None)
    if isinstance(m, types.FunctionType):
        return call(m, c, x)
    if isinstance(c, range) and isinstance(x, SInt):
        return sor(*[x == i for i in c])
    if m is None and hasattr(t, '__iter__'):
        return contains_formula(c, x)
    return x in c


def dict_contains(d, k):
    if not key_sym(k):
        if dict.__contains__(d, k):
            return True
        if not any_key_sym(d):
            return False
        return sor(*[eq(kk, k) for kk in d if key_sym(kk)])
    if dict.__contains__(d, k):
        return True
    return sor(*[_b(eq(kk, k)) for kk in d])


def _b(r):
    return r if isinstance(r, SBool) else bool(r)


def set_contains(s, x):
    if not key_sym(x) and not any_key_sym(s):
        if type(x).__hash__ is None:
            raise TypeError("unhashable type: '%s'" % type(x).__name__)
        return x in s
    do_hash(x)
    return contains_formula(s, x)


# -- ordering ---------------------------------------------------------------

def lt(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return str_lt(a, b)
    if type(a) is type(b) and type(a) in (list, tuple):
        return seq_lt(a, b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return sand(set_le(a, b), len(a) < len(b))
    if sym_in(a, 0) or sym_in(b, 0):
        if isinstance(a, SInt):
            return a < b
        return b > a
    return rich(a, b, '__lt__', '__gt__')


def seq_lt(a, b):
    for x, y in zip(a, b):
        if not bool(eq(x, y)):
            return lt(x, y)
    return len(a) < len(b)


def set_le(a, b):
    return sand(*[_contains(b, x) for x in a])


def le(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return snot(str_lt(b, a))
    if type(a) is type(b) and type(a) in (list, tuple):
        return snot(seq_lt(b, a))
    if isinstance(a, (set, frozenset, type({}.keys()))) and \
            isinstance(b, (set, frozenset, type({}.keys()))):
        return set_le(a, b)
    if isinstance(a, SInt) or isinstance(b, SInt):
        return a <= b
    return rich(a, b, '__le__', '__ge__')


def gt(a, b):
    if isinstance(a, (str, list, tuple, set, frozenset)):
        return lt(b, a)
    if isinstance(a, SInt) or isinstance(b, SInt):
        return a > b
    return rich(a, b, '__gt__', '__lt__')


def ge(a, b):
    if isinstance(a, (str, list, tuple, set, frozenset, type({}.keys()))):
        return le(b, a)
    if isinstance(a, SInt) or isinstance(b, SInt):
        return a >= b
    return rich(a, b, '__ge__', '__le__')


def is_op(a, b):
    return a is b


def isnot_op(a, b):
    return a is not b


CMP = {'==': eq_op, '!=': ne_op, 'in': in_op, 'not in': nin_op,
       '<': lt, '<=': le, '>': gt, '>=': ge, 'is': is_op,
       'is not': isnot_op}


def chain(first, ops, *rest):
    left = first
    res = True
    for op, r in zip(ops, rest):
        right = r()
        res = CMP[op](left, right)
        if not res:
            return res
        left = right
    return res


# -- containers -------------------------------------------------------------

MISSING = object()


def dfind(d, k):
    """Key of ``d`` equal to ``k`` (case split) or MISSING."""
    if not key_sym(k):
        if dict.__contains__(d, k):
            return k
        if not any_key_sym(d):
            return MISSING
        for kk in list(d):
            if key_sym(kk) and bool(eq(kk, k)):
                return kk
        return MISSING
    if dict.__contains__(d, k):
        return k
    for kk in list(d):
        if bool(eq(kk, k)):
            return kk
    return MISSING


def sfind(s, x):
    if not key_sym(x) and not any_key_sym(s):
        return x if x in s else MISSING
    for y in set_order(s):
        if bool(eq(y, x)):
            return y
    return MISSING


def plain_dict(d):
    """dict whose item access is dict's own."""
    t = type(d)
    if t is dict:
        return True
    if not isinstance(d, dict):
        return False
    return not isinstance(t.__getitem__, types.FunctionType)


def getitem(o, i):
    t = type(o)
    if t is dict:
        if type(i) is str and not has_sym(i) and dict.__contains__(o, i):
            return o[i]
        k = dfind(o, i)
        if k is MISSING:
            raise KeyError(i)
        return o[k]
    if t is list or t is tuple:
        if type(i) is SInt:
            i = concrete_int(i)
        return o[i]
    if t is str:
        if has_atom(o):
            o = deatom(o)
        if type(i) is SInt:
            i = concrete_int(i)
        return o[i]
    if isinstance(o, dict) and plain_dict(o):
        k = dfind(o, i)
        if k is MISSING:
            return o[i]      # __missing__ or KeyError
        return o[k]
    m = getattr(t, '__getitem__', None)
    if isinstance(m, types.FunctionType):
        return call(m, o, i)
    if type(i) is SInt:
        i = concrete_int(i)
    return o[i]


def setitem(o, i, v):
    if isinstance(o, dict) and \
            not isinstance(type(o).__setitem__, types.FunctionType):
        if type(i) is str or key_sym(i):
            k = dfind(o, i)
            if k is not MISSING:
                i = k
        elif type(i).__hash__ is not None and any_key_sym(o):
            k = dfind(o, i)
            if k is not MISSING:
                i = k
        o[i] = v
        return
    if type(i) is SInt:
        i = concrete_int(i)
    if type(o) is os._Environ:
        i, v = concretise(i), concretise(v)
    o[i] = v


def delitem(o, i):
    if isinstance(o, dict) and \
            not isinstance(type(o).__delitem__, types.FunctionType):
        k = dfind(o, i)
        if k is not MISSING:
            i = k
        del o[i]
        return
    if type(i) is SInt:
        i = concrete_int(i)
    if type(o) is os._Environ:
        i = concretise(i)
    del o[i]


class Ref(object):
    """Item assignment/deletion target."""

    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __getitem__(self, i):
        return getitem(self.o, i)

    def __setitem__(self, i, v):
        setitem(self.o, i, v)

    def __delitem__(self, i):
        delitem(self.o, i)


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        if k is NATIVE:          # ** unpacking
            for kk in v.keys():
                setitem(d, kk, v[kk])
        else:
            setitem(d, k, v)
    return d


def set_add(s, x):
    if key_sym(x) or any_key_sym(s):
        do_hash(x)
        if sfind(s, x) is not MISSING:
            return
    s.add(x)


def mkset(items):
    s = set()
    for x in items:
        set_add(s, x)
    return s


def iter_op(x):
    if type(x) is str and has_atom(x):
        return deatom(x)
    return x


def slice_op(*a):
    return slice(*[concrete_int(x) if type(x) is SInt else x for x in a])


_SETS = (set, frozenset, type({}.keys()), type({}.items()))


def binop(op, a, b):
    if isinstance(a, _SETS) and isinstance(b, _SETS):
        if any_key_sym(a) or any_key_sym(b):
            if op == '-':
                r = [x for x in a if not bool(_contains(b, x))]
            elif op == '&':
                r = [x for x in a if bool(_contains(b, x))]
            elif op == '|':
                r = list(a) + [x for x in b if not bool(_contains(a, x))]
            else:
                r = [x for x in a if not bool(_contains(b, x))] + \
                    [x for x in b if not bool(_contains(a, x))]
            r = set(r)
            return frozenset(r) if type(a) is frozenset else r
    elif op == '%':
        return mod_op(a, b)
    elif op == '|' and isinstance(a, dict) and isinstance(b, dict) and \
            (any_key_sym(a) or any_key_sym(b)):
        return dict_union(a, b)
    return _BINOPS[op](a, b)


_BINOPS = {'-': operator.sub, '&': operator.and_, '|': operator.or_,
           '^': operator.xor, '%': operator.mod}


def iop(op, a, b):
    if type(a) is set and isinstance(b, _SETS) and \
            (any_key_sym(a) or any_key_sym(b)):
        r = binop(op, a, b)
        a.clear()
        for x in r:
            a.add(x)
        return a
    if isinstance(a, dict) and op == '|':
        dict_update(a, b)
        return a
    if op == '%':
        return mod_op(a, b)
    return {'-': operator.isub, '&': operator.iand, '|': operator.ior,
            '^': operator.ixor}[op](a, b)


def exc_guard():
    """First statement of every except handler."""
    e = sys.exc_info()[1]
    if isinstance(e, Control):
        raise e


# -- hash -------------------------------------------------------------------

def do_hash(x):
    """hash(x): raises TypeError where hash() would."""
    t = type(x)
    if t is str:
        return SHash(x)
    if t is tuple or (isinstance(x, tuple) and
                      t.__hash__ is tuple.__hash__):
        return SHash(tuple(do_hash(y) for y in x))
    if t is frozenset:
        return SHash(_Bag([do_hash(y) for y in x]))
    if t in (SInt, SBool, SHash):
        return SHash(x)
    h = t.__hash__
    if h is None:
        raise TypeError("unhashable type: '%s'" % t.__name__)
    if isinstance(h, types.FunctionType):
        r = h(x)
        if not isinstance(r, int):
            raise TypeError("__hash__ method should return an integer")
        return r
    hash(x)
    return SHash(_HObj(x))


class _HObj(object):
    def __init__(self, o):
        self.o = o

    def __eq__(self, other):
        if isinstance(other, _HObj):
            return hash(self.o) == hash(other.o)
        return False

    __hash__ = None


# -- handlers ---------------------------------------------------------------

def to_list(x):
    return list(iter_op(x))


def h_map(f, *its):
    def gen():
        for args in zip(*[iter_op(i) for i in its]):
            yield call(f, *args)
    return gen()


def h_filter(f, it):
    def gen():
        for x in iter_op(it):
            if (call(f, x) if f is not None else x):
                yield x
    return gen()


def h_sorted(it, *, key=None, reverse=False):
    items = to_list(it)
    keys = [call(key, x) for x in items] if key is not None else items
    if not any(sym_in(k) for k in keys) and \
            not any(type(k).__lt__ is not object.__lt__ and
                    isinstance(type(k).__lt__, types.FunctionType)
                    for k in keys):
        return [x for _, x in _nsort(list(zip(keys, items)), reverse)]
    # insertion sort, stable
    out = []
    for k, x in (zip(keys, items)):
        i = len(out)
        while i > 0:
            less = lt(out[i - 1][0], k) if reverse else lt(k, out[i - 1][0])
            if not less:
                break
            i -= 1
        out.insert(i, (k, x))
    return [x for _, x in out]


def _nsort(pairs, reverse):
    return sorted(pairs, key=lambda p: p[0], reverse=bool(reverse))


def h_list_sort(self, *, key=None, reverse=False):
    self[:] = h_sorted(self, key=key, reverse=reverse)


_NODEF = object()


def h_min(*a, key=None, default=_NODEF):
    return _minmax(a, key, default, lambda x, y: lt(x, y))


def h_max(*a, key=None, default=_NODEF):
    return _minmax(a, key, default, lambda x, y: gt(x, y))


def _minmax(a, key, default, better):
    items = to_list(a[0]) if len(a) == 1 else list(a)
    if not items:
        if default is not _NODEF:
            return default
        raise ValueError("arg is an empty sequence")
    best = items[0]
    bk = call(key, best) if key is not None else best
    for x in items[1:]:
        k = call(key, x) if key is not None else x
        if better(k, bk):
            best, bk = x, k
    return best


def h_dict(*a, **k):
    d = {}
    if a:
        dict_update(d, a[0])
    for kk, v in k.items():
        setitem(d, kk, v)
    return d


def dict_update(d, *a, **k):
    if a:
        src = a[0]
        if hasattr(src, 'keys'):
            if isinstance(src, dict):
                for kk in list(dict.keys(src)):
                    setitem(d, kk, dict.__getitem__(src, kk))
            else:
                for kk in src.keys():
                    setitem(d, kk, src[kk])
        else:
            for i, pair in enumerate(src):
                pair = tuple(iter_op(pair))
                if len(pair) != 2:
                    raise ValueError(
                        "dictionary update sequence element #%d has length "
                        "%d; 2 is required" % (i, len(pair)))
                setitem(d, pair[0], pair[1])
    for kk, v in k.items():
        setitem(d, kk, v)


def h_set(it=()):
    return mkset(iter_op(it))


def h_frozenset(it=()):
    return frozenset(mkset(iter_op(it)))


def h_len(x):
    if type(x) is str and has_atom(x):
        return len(deatom(x))
    m = getattr(type(x), '__len__', None)
    if isinstance(m, types.FunctionType):
        return call(m, x)
    return len(x)


def h_truth(v):
    """What __bool__ may hand to the interpreter."""
    return bool(v) if type(v) in (SBool, SInt) else v


def h_index(v):
    """What __len__ and __index__ may hand to the interpreter."""
    if type(v) is SInt:
        return concrete_int(v)
    return int(bool(v)) if type(v) is SBool else v


_WIDTH = re.compile(r'%(\([^)]*\))?[-#0 +]*[\d*.]')


def mod_op(a, b):
    """``a % b``: padding and truncation need the real lengths."""
    if type(a) is str and _WIDTH.search(a):
        if type(b) is tuple:
            b = tuple(fmtarg(x) for x in b)
        elif isinstance(b, dict):
            b = {k: fmtarg(x) for k, x in b.items()}
        else:
            b = fmtarg(b)
    return a % b


def fmtarg(x):
    """Argument of a format with a width: its length matters."""
    if type(x) is str:
        return deatom(x) if has_atom(x) else x
    m = type(x).__str__
    if type(m) is types.FunctionType and \
            type(x).__format__ is object.__format__:
        return deatom(call(m, x))
    return x


def s_format(self, *a, **k):
    if ':' in self:
        try:
            specs = any(f[2] for f in string.Formatter().parse(self))
        except ValueError:
            specs = False
        if specs:
            a = [x if isinstance(x, types.ModuleType) else fmtarg(x)
                 for x in a]
            k = {n: fmtarg(x) for n, x in k.items()}
    return self.format(*a, **k)


def dict_union(a, b):
    r = type(a)() if type(a) is not collections.defaultdict else \
        collections.defaultdict(a.default_factory)
    dict_update(r, a)
    dict_update(r, b)
    return r


def h_isinstance(x, cls):
    t = type(x)
    if t is SBool:
        return _issub(bool, cls)
    if t is SInt:
        return _issub(int, cls)
    if t is SHash:
        return _issub(int, cls)
    return isinstance(x, cls)


def _issub(c, cls):
    return issubclass(c, cls)


def h_type(*a, **k):
    if len(a) == 1 and not k:
        t = type(a[0])
        if t is SBool:
            return bool
        if t is SInt:
            return int
        return t
    return type(*a, **k)


def h_bool(*a):
    if not a:
        return False
    return bool(a[0])


def h_int(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], SInt):
        return a[0]
    if len(a) == 1 and not k and isinstance(a[0], SBool):
        return mkint(z3.If(a[0].f, z3.IntVal(1), z3.IntVal(0)))
    a = [st.concretise_str(x) if type(x) is str else x for x in a]
    return int(*a, **k)


def h_str(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], (SInt,)):
        return str(a[0])
    if len(a) >= 1 and isinstance(a[0], bytes):
        return str(*a, **k)
    if len(a) == 1 and not k and type(a[0]) is not str:
        m = type(a[0]).__str__
        if isinstance(m, types.FunctionType):
            return m(a[0])
    return str(*a, **k)


def h_ord(c):
    if type(c) is str and len(c) == 1:
        if st.is_atom_cell(c):
            c = deatom(c)
        if len(c) == 1 and st.is_char_cell(c):
            return mkint(st.char_of(c)[0])
    return ord(c)


def h_chr(i):
    if isinstance(i, SInt):
        return chr(concrete_int(i))
    return chr(i)


def h_hash(x):
    return do_hash(x)


def h_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def h_groupby(it, key=None):
    out = []
    for x in iter_op(it):
        k = call(key, x) if key is not None else x
        if out and bool(eq(out[-1][0], k)):
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter([(k, iter(v)) for k, v in out])


def h_reduce(f, it, *init):
    it = iter(iter_op(it))
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


def h_ordereddict(*a, **k):
    d = collections.OrderedDict()
    if a:
        dict_update(d, a[0])
    for kk, v in k.items():
        setitem(d, kk, v)
    return d


def h_defaultdict(factory=None, *a, **k):
    d = collections.defaultdict(factory)
    if a:
        dict_update(d, a[0])
    for kk, v in k.items():
        setitem(d, kk, v)
    return d


def h_counter(*a, **k):
    d = collections.Counter()
    if a:
        src = a[0]
        if isinstance(src, dict):
            dict_update(d, src)
        else:
            for x in iter_op(src):
                kk = dfind(d, x)
                if kk is MISSING:
                    d[x] = 1
                else:
                    d[kk] = d[kk] + 1
    return d


def h_fromkeys(it, v=None):
    d = {}
    for k in iter_op(it):
        setitem(d, k, v)
    return d


def h_any(it):
    for x in it:
        if x:
            return True
    return False


def h_all(it):
    for x in it:
        if not x:
            return False
    return True


def h_next(it, *d):
    return next(it, *d)


def h_list(*a):
    if not a:
        return []
    return list(iter_op(a[0]))


def h_tuple(*a):
    if not a:
        return ()
    return tuple(iter_op(a[0]))


def h_enumerate(it, start=0):
    return enumerate(iter_op(it), start)


def h_reversed(x):
    return reversed(iter_op(x))


def h_zip(*its, **k):
    return zip(*[iter_op(i) for i in its], **k)


def h_getattr(o, name, *d):
    if has_sym(name):
        name = st.concretise_str(name)
    return getattr(o, name, *d)


def h_setattr(o, name, v):
    if has_sym(name):
        name = st.concretise_str(name)
    return setattr(o, name, v)


def h_hasattr(o, name):
    if has_sym(name):
        name = st.concretise_str(name)
    return hasattr(o, name)


_ESC = re.compile(r"\\U(0002[0-9a-f]{4})")
_JESC = re.compile(r"\\u(d8[4-6][0-9a-f])\\u(d[c-f][0-9a-f]{2})")


def h_repr(x):
    r = repr(x)
    if '\\U' in r:
        r = _ESC.sub(lambda m: chr(int(m.group(1), 16)), r)
    return r


def h_json_dumps(*a, **k):
    r = json.dumps(*a, **k)
    if '\\ud8' in r:
        r = _JESC.sub(lambda m: chr(
            0x10000 + ((int(m.group(1), 16) - 0xd800) << 10) +
            int(m.group(2), 16) - 0xdc00), r)
    return r


class FakeHashlib(object):
    """Injective model of a cryptographic digest over symbolic input."""

    memo = {}

    def __init__(self, kind, data=b''):
        self.kind = kind
        self.data = bytes(data)

    def update(self, data):
        self.data += bytes(data)

    def copy(self):
        return FakeHashlib(self.kind, self.data)

    def hexdigest(self):
        if not bytes_sym(self.data):
            s = hashlib.new(self.kind, self.data).hexdigest()
            memo = FakeHashlib.memo.setdefault(self.kind, [])
            memo.append((self.data, s))
            return s
        memo = FakeHashlib.memo.setdefault(self.kind, [])
        for d, s in memo:
            if bool(eq(d, self.data)):
                return s
        n = len(memo)
        v = z3.Int("digest!%s!%d" % (self.kind, n))
        a = st.new_atom(v)
        # collision freedom: a digest of other data, never a plain name
        core.ENGINE.declare(v == -(1000003 + n))
        memo.append((self.data, a))
        return a

    def digest(self):
        return self.hexdigest().encode('utf-8')


def _mkdigest(kind):
    def f(data=b'', **k):
        if isinstance(data, str):
            raise TypeError("Strings must be encoded before hashing")
        return FakeHashlib(kind, data)
    return f


# ---- strings --------------------------------------------------------------

_WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u3000"


def _conc_args(f):
    """Handler wrapper: atoms in the receiver or arguments are split."""
    @functools.wraps(f)
    def g(self, *a, **k):
        self = deatom(self)
        a = [deatom(x) if type(x) is str else
             (concrete_int(x) if type(x) is SInt else x) for x in a]
        k = {n: (deatom(x) if type(x) is str else x) for n, x in k.items()}
        if not has_sym(self) and not any(
                type(x) is str and has_sym(x) or
                type(x) is tuple and sym_in(x)
                for x in list(a) + list(k.values())):
            return getattr(self, f.__name__[2:])(*a, **k)
        return f(self, *a, **k)
    return g


def _stripset(chars):
    if chars is None:
        return lambda c: st.char_pred(c, str.isspace)
    return lambda c: sor(*[st.char_eq(c, x) for x in chars])


def _lstrip(s, chars):
    p = _stripset(chars)
    i = 0
    while i < len(s) and bool(p(s[i])):
        i += 1
    return s[i:]


def _rstrip(s, chars):
    p = _stripset(chars)
    i = len(s)
    while i > 0 and bool(p(s[i - 1])):
        i -= 1
    return s[:i]


@_conc_args
def s_strip(self, chars=None):
    return _rstrip(_lstrip(self, chars), chars)


@_conc_args
def s_lstrip(self, chars=None):
    return _lstrip(self, chars)


@_conc_args
def s_rstrip(self, chars=None):
    return _rstrip(self, chars)


def match_at(s, i, sub):
    """Formula: ``sub`` occurs in ``s`` at offset ``i``."""
    if i + len(sub) > len(s):
        return False
    acc = []
    for x, y in zip(s[i:i + len(sub)], sub):
        r = st.char_eq(x, y)
        if r is False:
            return False
        if r is not True:
            acc.append(r)
    return sand(*acc)


def str_contains(s, sub):
    if s == sub:
        return True
    s, sub = deatom(s), deatom(sub)
    return sor(*[match_at(s, i, sub)
                 for i in range(0, len(s) - len(sub) + 1)])


def _find(s, sub, start, end):
    for i in range(start, end - len(sub) + 1):
        if bool(match_at(s, i, sub)):
            return i
    return -1


def _rfind(s, sub, start, end):
    for i in range(end - len(sub), start - 1, -1):
        if bool(match_at(s, i, sub)):
            return i
    return -1


def _bounds(s, a):
    start, end, _ = slice(*(list(a) + [None] * (2 - len(a)))).indices(len(s))
    return start, end


@_conc_args
def s_find(self, sub, *a):
    start, end = _bounds(self, a)
    return _find(self, sub, start, end)


@_conc_args
def s_rfind(self, sub, *a):
    start, end = _bounds(self, a)
    return _rfind(self, sub, start, end)


@_conc_args
def s_index(self, sub, *a):
    start, end = _bounds(self, a)
    r = _find(self, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


@_conc_args
def s_rindex(self, sub, *a):
    start, end = _bounds(self, a)
    r = _rfind(self, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


@_conc_args
def s_count(self, sub, *a):
    start, end = _bounds(self, a)
    n = 0
    i = start
    if not sub:
        return end - start + 1
    while True:
        j = _find(self, sub, i, end)
        if j < 0:
            return n
        n += 1
        i = j + len(sub)


@_conc_args
def s_startswith(self, prefix, *a):
    start, end = _bounds(self, a)
    ps = prefix if isinstance(prefix, tuple) else (prefix,)
    return sor(*[match_at(self[start:end], 0, deatom(p)) for p in ps])


@_conc_args
def s_endswith(self, suffix, *a):
    start, end = _bounds(self, a)
    s = self[start:end]
    ps = suffix if isinstance(suffix, tuple) else (suffix,)
    return sor(*[len(s) >= len(p) and match_at(s, len(s) - len(p), p)
                 for p in [deatom(p) for p in ps]])


@_conc_args
def s_split(self, sep=None, maxsplit=-1):
    out = []
    if sep is None:
        s = _lstrip(self, None)
        while s:
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(_rstrip(s, None))
                return out
            i = 0
            while i < len(s) and not bool(st.char_pred(s[i], str.isspace)):
                i += 1
            out.append(s[:i])
            s = _lstrip(s[i:], None)
        return out
    if not sep:
        raise ValueError("empty separator")
    i = 0
    while maxsplit < 0 or len(out) < maxsplit:
        j = _find(self, sep, i, len(self))
        if j < 0:
            break
        out.append(self[i:j])
        i = j + len(sep)
    out.append(self[i:])
    return out


@_conc_args
def s_rsplit(self, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return s_split(self, sep)
    out = []
    if sep is None:
        s = _rstrip(self, None)
        while s:
            if len(out) >= maxsplit:
                out.append(_lstrip(s, None))
                break
            i = len(s)
            while i > 0 and not bool(st.char_pred(s[i - 1], str.isspace)):
                i -= 1
            out.append(s[i:])
            s = _rstrip(s[:i], None)
        return out[::-1]
    if not sep:
        raise ValueError("empty separator")
    end = len(self)
    while len(out) < maxsplit:
        j = _rfind(self, sep, 0, end)
        if j < 0:
            break
        out.append(self[j + len(sep):end])
        end = j
    out.append(self[:end])
    return out[::-1]


@_conc_args
def s_partition(self, sep):
    j = _find(self, sep, 0, len(self))
    if j < 0:
        return (self, '', '')
    return (self[:j], sep, self[j + len(sep):])


@_conc_args
def s_rpartition(self, sep):
    j = _rfind(self, sep, 0, len(self))
    if j < 0:
        return ('', '', self)
    return (self[:j], sep, self[j + len(sep):])


@_conc_args
def s_replace(self, old, new, count=-1):
    if not old:
        return st.concretise_str(self).replace(old, new, count)
    out = []
    i = 0
    n = 0
    while count < 0 or n < count:
        j = _find(self, old, i, len(self))
        if j < 0:
            break
        out.append(self[i:j])
        out.append(new)
        i = j + len(old)
        n += 1
    out.append(self[i:])
    return ''.join(out)


_LB = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


@_conc_args
def s_splitlines(self, keepends=False):
    out = []
    cur = 0
    i = 0
    n = len(self)
    while i < n:
        c = self[i]
        if bool(st.char_pred(c, lambda x: x in _LB)):
            j = i + 1
            if bool(st.char_eq(c, '\r')) and j < n and \
                    bool(st.char_eq(self[j], '\n')):
                j += 1
            out.append(self[cur:j] if keepends else self[cur:i])
            cur = j
            i = j
        else:
            i += 1
    if cur < n:
        out.append(self[cur:])
    return out


def _case_map(self, fn):
    out = []
    for c in self:
        if st.is_char_cell(c):
            e, dom = st.char_of(c)
            groups = {}
            for v in dom:
                w = fn(chr(v))
                if len(w) != 1:
                    groups.setdefault(w, []).append(v)
            special = False
            for w, vs in groups.items():
                if bool(mkbool(st.in_domain(e, vs))):
                    out.append(w)
                    special = True
                    break
            if special:
                continue
            moves = {}
            for v in dom:
                w = fn(chr(v))
                if len(w) == 1 and ord(w) != v:
                    moves.setdefault(ord(w) - v, []).append(v)
            ne = e
            for d, vs in sorted(moves.items()):
                ne = z3.If(st.in_domain(e, vs), e + d, ne)
            newdom = tuple(sorted({ord(fn(chr(v))) for v in dom
                                   if len(fn(chr(v))) == 1}))
            out.append(st.new_char(z3.simplify(ne), newdom))
        else:
            out.append(fn(c))
    return ''.join(out)


@_conc_args
def s_lower(self):
    return _case_map(self, str.lower)


@_conc_args
def s_upper(self):
    return _case_map(self, str.upper)


@_conc_args
def s_casefold(self):
    return _case_map(self, str.casefold)


@_conc_args
def s_swapcase(self):
    return _case_map(self, str.swapcase)


def _mk_is(name):
    fn = getattr(str, name)

    def g(self):
        return len(self) > 0 and sand(*[st.char_pred(c, fn) for c in self])
    g.__name__ = 's_' + name
    return _conc_args(g)


def _conc_all(name):
    def g(self, *a, **k):
        return getattr(st.concretise_str(self), name)(
            *[st.concretise_str(x) if type(x) is str else x for x in a], **k)
    g.__name__ = 's_' + name
    return g


def s_isidentifier(self):
    self = deatom(self)
    if not self:
        return False
    acc = [st.char_pred(self[0], str.isidentifier)]
    acc += [st.char_pred(c, lambda x: ('a' + x).isidentifier())
            for c in self[1:]]
    return sand(*acc)


def s_join(self, it):
    items = list(iter_op(it))
    return self.join(items)


@functools.lru_cache(maxsize=None)
def _codec(name):
    """'utf-8', 'single' for extensions of ASCII byte by byte, or None."""
    info = codecs.lookup(name)
    if info.name == 'utf-8':
        return 'utf-8'
    try:
        ok = all(bytes([i]).decode(name) == chr(i) and
                 chr(i).encode(name) == bytes([i]) for i in range(128))
        return 'single' if ok and not info.name.startswith('utf') else None
    except (UnicodeError, LookupError):
        return None


def _recode(s, convert):
    """Parts of a text that consist of ASCII characters stay as they are."""
    out = []
    for c in s:
        if st.is_atom_cell(c) or st.is_char_cell(c) and bool(
                st.char_pred(c, str.isascii)):
            out.append(c.encode('utf-8'))
        else:
            out.append(convert(st.concretise_str(c)))
    return out


def s_encode(self, encoding='utf-8', errors='strict'):
    kind = _codec(encoding)
    if kind == 'utf-8':
        return self.encode('utf-8', errors)
    if kind == 'single':
        return b''.join(_recode(self, lambda c: c.encode(encoding, errors)))
    return st.concretise_str(self).encode(encoding, errors)


def b_decode(self, encoding='utf-8', errors='strict'):
    kind = _codec(encoding)
    if kind == 'utf-8':
        return self.decode('utf-8', errors)
    s = self.decode('utf-8')
    if kind == 'single':
        return ''.join(x.decode('utf-8') if type(x) is bytes else x
                       for x in _recode(s, lambda c: c.encode(
                           'utf-8').decode(encoding, errors)))
    return st.concretise_str(s).encode('utf-8').decode(encoding, errors)


def s_expand_lower_noop(self):
    return self


STR_METHODS = {}
for _n, _f in list(globals().items()):
    if _n.startswith('s_') and callable(_f):
        STR_METHODS[_n[2:]] = _f
for _n in ('isalnum', 'isalpha', 'isdigit', 'isspace', 'isdecimal',
           'isnumeric', 'isprintable'):
    STR_METHODS[_n] = _mk_is(_n)
for _n in ('islower', 'isupper', 'istitle', 'title', 'capitalize',
           'translate', 'zfill', 'ljust', 'rjust', 'center', 'expandtabs',
           'removeprefix', 'removesuffix', 'isascii'):
    STR_METHODS[_n] = _conc_all(_n)


def s_removeprefix(self, p):
    if bool(STR_METHODS['startswith'](self, p)):
        return deatom(self)[len(deatom(p)):]
    return self


def s_removesuffix(self, p):
    if p and bool(STR_METHODS['endswith'](self, p)):
        s = deatom(self)
        return s[:len(s) - len(deatom(p))]
    return self


STR_METHODS['removeprefix'] = s_removeprefix
STR_METHODS['removesuffix'] = s_removesuffix
STR_NATIVE = {'format', 'join', '__str__', '__add__', '__mod__',
              '__format__', '__mul__', '__repr__', '__iter__',
              'format_map', '__rmod__'}


def str_method(name, self, a, k):
    if name == '__contains__':
        return str_contains(self, a[0])
    if name == '__eq__':
        return eq(self, a[0])
    if name == '__ne__':
        return snot(eq(self, a[0]))
    if name == '__len__':
        return len(deatom(self))
    if name == '__lt__':
        return lt(self, a[0])
    if name == '__getitem__':
        return getitem(self, a[0])
    if name == '__hash__':
        return do_hash(self)
    if name == 'format':
        return s_format(self, *a, **k)
    if name == '__mod__':
        return mod_op(self, *a)
    if name in STR_NATIVE:
        return getattr(self, name)(*a, **k)
    f = STR_METHODS.get(name)
    if f is not None:
        return f(self, *a, **k)
    core.ENGINE.note("str.%s made concrete" % name)
    return getattr(st.concretise_str(self), name)(
        *[st.concretise_str(x) if type(x) is str else x for x in a], **k)


# ---- dict / list / set methods --------------------------------------------

def d_get(self, k, default=None):
    kk = dfind(self, k)
    if kk is MISSING:
        return default
    return dict.__getitem__(self, kk)


def d_pop(self, k, *d):
    kk = dfind(self, k)
    if kk is MISSING:
        if d:
            return d[0]
        raise KeyError(k)
    return dict.pop(self, kk)


def d_setdefault(self, k, default=None):
    kk = dfind(self, k)
    if kk is MISSING:
        self[k] = default
        return default
    return dict.__getitem__(self, kk)


def d_getitem(self, k):
    kk = dfind(self, k)
    return dict.__getitem__(self, k if kk is MISSING else kk)


def d_setitem(self, k, v):
    kk = dfind(self, k)
    dict.__setitem__(self, k if kk is MISSING else kk, v)


def d_delitem(self, k):
    kk = dfind(self, k)
    dict.__delitem__(self, k if kk is MISSING else kk)


def d_init(self, *a, **k):
    dict_update(self, *a, **k)


def d_eq(self, other):
    if not isinstance(other, dict):
        return NotImplemented
    return dict_eq(self, other)


def d_ne(self, other):
    if not isinstance(other, dict):
        return NotImplemented
    return snot(dict_eq(self, other))


DICT_METHODS = {
    'get': d_get, 'pop': d_pop, 'setdefault': d_setdefault,
    'update': dict_update, '__getitem__': d_getitem,
    '__setitem__': d_setitem, '__delitem__': d_delitem,
    '__contains__': dict_contains, '__eq__': d_eq, '__ne__': d_ne,
    '__init__': d_init,
}
COUNTER_SKIP = {'update', '__init__'}


def l_remove(self, x):
    for i, y in enumerate(self):
        if bool(_b(eq(y, x))):
            del self[i]
            return
    raise ValueError("list.remove(x): x not in list")


def l_index(self, x, *a):
    start, end = _bounds(self, a)
    for i in range(start, end):
        if bool(_b(eq(self[i], x))):
            return i
    raise ValueError("%r is not in list" % (x,))


def l_count(self, x):
    n = 0
    for y in self:
        if bool(_b(eq(y, x))):
            n += 1
    return n


def l_extend(self, it):
    self.extend(iter_op(it))


def l_pop(self, *a):
    return self.pop(*[concrete_int(x) for x in a])


LIST_METHODS = {
    'remove': l_remove, 'index': l_index, 'count': l_count,
    'sort': h_list_sort, '__contains__': contains_formula,
    '__eq__': lambda s, o: seq_eq(s, o) if isinstance(o, list)
    else NotImplemented,
    'extend': l_extend, 'pop': l_pop,
    '__getitem__': getitem,
}
TUPLE_METHODS = {
    'index': l_index, 'count': l_count, '__contains__': contains_formula,
    '__eq__': lambda s, o: seq_eq(s, o) if isinstance(o, tuple)
    else NotImplemented,
    '__getitem__': getitem,
}


def set_discard(self, x):
    y = sfind(self, x)
    if y is not MISSING:
        self.discard(y)


def set_remove(self, x):
    y = sfind(self, x)
    if y is MISSING:
        raise KeyError(x)
    self.remove(y)


def set_update(self, *its):
    for it in its:
        for x in iter_op(it):
            set_add(self, x)


def _setop(op):
    def f(self, *others):
        r = self
        for o in others:
            r = binop(op, r, mkset(iter_op(o)))
        if r is self:
            r = self.copy()
        return r
    return f


def _setiop(op):
    def f(self, *others):
        r = _setop(op)(self, *others)
        self.clear()
        for x in r:
            self.add(x)
    return f


SET_METHODS = {
    'add': set_add, 'discard': set_discard, 'remove': set_remove,
    'update': set_update, '__contains__': set_contains,
    'union': _setop('|'), 'difference': _setop('-'),
    'intersection': _setop('&'), 'symmetric_difference': _setop('^'),
    'difference_update': _setiop('-'),
    'intersection_update': _setiop('&'),
    'issubset': lambda s, o: set_le(s, mkset(o)),
    'issuperset': lambda s, o: set_le(mkset(o), s),
    'isdisjoint': lambda s, o: not any(bool(_contains(s, x)) for x in o),
    '__eq__': lambda s, o: set_eq(s, o)
    if isinstance(o, (set, frozenset)) else NotImplemented,
}


def builtin_method(f, self, name, a, k):
    """Call of a bound C method; NATIVE when no handling is needed."""
    if type(self) is str or isinstance(self, str):
        if has_sym(self) or any(sym_in(x, 1) for x in a) or k:
            return str_method(name, str.__str__(self), a, k)
        return NATIVE
    if isinstance(self, dict):
        h = DICT_METHODS.get(name)
        if h is None:
            return NATIVE
        if isinstance(self, collections.Counter) and name in COUNTER_SKIP:
            return NATIVE
        if name == '__init__' and isinstance(
                self, (collections.defaultdict,)):
            return NATIVE
        return h(self, *a, **k)
    if isinstance(self, list):
        h = LIST_METHODS.get(name)
        return NATIVE if h is None else h(self, *a, **k)
    if isinstance(self, tuple):
        h = TUPLE_METHODS.get(name)
        return NATIVE if h is None else h(self, *a, **k)
    if isinstance(self, (set, frozenset)):
        h = SET_METHODS.get(name)
        return NATIVE if h is None else h(self, *a, **k)
    if isinstance(self, re.Pattern):
        if any(type(x) is str and has_sym(x) for x in
               list(a) + list(k.values())):
            from . import rx
            return rx.pattern_method(self, name, a, k)
        return NATIVE
    if isinstance(self, bytes):
        if name == 'decode' and bytes_sym(self):
            return b_decode(self, *a, **k)
        if bytes_sym(self) or any(isinstance(x, bytes) and bytes_sym(x)
                                  for x in a):
            s = self.decode('utf-8')
            r = str_method(name, s, [x.decode('utf-8')
                                     if isinstance(x, bytes) else x
                                     for x in a], k)
            return _enc(r)
        return NATIVE
    if isinstance(self, type):
        if name == 'fromkeys' and self is dict:
            return h_fromkeys(*a, **k)
    return NATIVE


def _enc(r):
    if isinstance(r, str):
        return r.encode('utf-8')
    if isinstance(r, list):
        return [_enc(x) for x in r]
    if isinstance(r, tuple):
        return tuple(_enc(x) for x in r)
    return r


FUNCTIONS = {
    map: h_map, filter: h_filter, sorted: h_sorted, min: h_min, max: h_max,
    dict: h_dict, set: h_set, frozenset: h_frozenset, len: h_len,
    isinstance: h_isinstance, type: h_type, int: h_int, str: h_str,
    ord: h_ord, chr: h_chr, hash: h_hash, sum: h_sum, any: h_any,
    all: h_all, list: h_list, tuple: h_tuple, enumerate: h_enumerate,
    reversed: h_reversed, zip: h_zip, getattr: h_getattr,
    setattr: h_setattr, hasattr: h_hasattr, bool: h_bool,
    itertools.groupby: h_groupby, functools.reduce: h_reduce,
    collections.OrderedDict: h_ordereddict,
    collections.defaultdict: h_defaultdict,
    collections.Counter: h_counter,
    repr: h_repr,
    operator.eq: eq_op, operator.ne: ne_op, operator.lt: lt,
    operator.le: le, operator.gt: gt, operator.ge: ge,
    operator.contains: lambda a, b: _contains(a, b),
    operator.getitem: getitem,
    hashlib.sha1: _mkdigest('sha1'), hashlib.md5: _mkdigest('md5'),
    hashlib.sha256: _mkdigest('sha256'),
    hashlib.sha512: _mkdigest('sha512'),
    itertools.filterfalse: lambda f, it: (x for x in it
                                          if not call(f, x)),
}



def h_normpath(path):
    """posix._path_normpath: the pure python definition of posixpath."""
    if type(path) is not str or not has_sym(path):
        return posix._path_normpath(path)
    if not path:
        return ''
    n = 0
    while n < len(path) and n < 3 and bool(eq_op(path[n], '/')):
        n += 1
    start = '' if n == 0 else '//' if n == 2 else '/'
    new = []
    for comp in builtin_method(None, path, 'split', ('/',), {}):
        if bool(eq_op(comp, '')) or bool(eq_op(comp, '.')):
            continue
        if not bool(eq_op(comp, '..')) or (not start and not new) or (
                new and bool(eq_op(new[-1], '..'))):
            new.append(comp)
        elif new:
            new.pop()
    return start + '/'.join(new)


FUNCTIONS[posix.fspath] = lambda p: p if type(p) is str \
    else posix.fspath(p)
if hasattr(posix, '_path_normpath'):
    FUNCTIONS[posix._path_normpath] = h_normpath

# native callables that are harmless with symbolic arguments
PASS_TYPES = (types.GeneratorType,)
PASS = set()
for _f in (print, id, callable, format, iter, next, issubclass, vars,
           super, object, slice, property, staticmethod, classmethod,
           Exception, ValueError, TypeError, KeyError, RuntimeError,
           LookupError, IndexError, AttributeError, OSError, IOError,
           NotImplementedError, AssertionError, StopIteration,
           itertools.chain, itertools.islice, itertools.product,
           itertools.repeat, itertools.starmap, itertools.zip_longest,
           collections.deque, functools.partial, delattr, abs, dir,
           itertools.permutations, itertools.combinations):
    PASS.add(_f)

# pure python stdlib modules whose functions are instrumented on demand
ON_DEMAND = {'string', 'textwrap', 'posixpath', 'genericpath', 'cgi',
             'shlex', 'fnmatch', 'urllib.parse', 'yaml.resolver_never',
             'functools_never', 'contextlib', 'argparse', 'collections',
             'difflib', 'glob'}

# methods of patterns are of a type of their own
CMETHOD = type(re.compile('').match)

FN_OVERRIDES = {json.dumps: h_json_dumps}       # python function -> replacement (symbolic mode)


def call(f, /, *a, **k):
    t = type(f)
    if t is types.FunctionType:
        code = f.__code__
        if code in INSTRUMENTED:
            FUNCS_ENTERED.add((f.__module__, code.co_qualname))
            return f(*a, **k)
        h = FN_OVERRIDES.get(f)
        if h is not None:
            return h(*a, **k)
        return call_foreign(f, a, k)
    if t is types.MethodType:
        fn = f.__func__
        if type(fn) is types.FunctionType:
            code = fn.__code__
            if code in INSTRUMENTED:
                FUNCS_ENTERED.add((fn.__module__, code.co_qualname))
                return f(*a, **k)
            h = FN_OVERRIDES.get(fn)
            if h is not None:
                return h(f.__self__, *a, **k)
            return call_foreign(fn, (f.__self__,) + a, k)
        return call(fn, f.__self__, *a, **k)
    if t is types.BuiltinFunctionType or t is CMETHOD:
        self = f.__self__
        if self is None or type(self) is types.ModuleType:
            h = FUNCTIONS.get(f)
            if h is not None:
                return h(*a, **k)
            return call_native(f, a, k)
        if isinstance(self, type):
            if f.__name__ == 'fromkeys' and issubclass(self, dict):
                return h_fromkeys(*a, **k)
            return call_native(f, a, k)
        r = builtin_method(f, self, f.__name__, a, k)
        if r is NATIVE:
            return f(*a, **k)
        return r
    if t is types.MethodWrapperType:
        self = f.__self__
        if isinstance(self, (str, dict, list, tuple, set, frozenset)):
            r = builtin_method(f, self, f.__name__, a, k)
            if r is not NATIVE:
                return r
        return f(*a, **k)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        if a and isinstance(a[0], (str, dict, list, tuple, set, frozenset,
                                   bytes)):
            r = builtin_method(f, a[0], f.__name__, a[1:], k)
            if r is not NATIVE:
                return r
        return f(*a, **k)
    if isinstance(f, type):
        try:
            h = FUNCTIONS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(*a, **k)
        if f is bytes or f is float or f is range:
            return call_native(f, a, k)
        if isinstance(f, enum.EnumMeta) and len(a) == 1 and sym_in(a[0]):
            for m in f:
                if bool(eq(m.value, a[0])):
                    return m
            return f(concretise(a[0]))
        if issubclass(f, (set, frozenset)) and a:
            return f(mkset(iter_op(a[0])))
        return f(*a, **k)
    if t is functools.partial:
        kw = dict(f.keywords)
        kw.update(k)
        return call(f.func, *(f.args + a), **kw)
    m = getattr(t, '__call__', None)
    if type(m) is types.FunctionType:
        return call(m, f, *a, **k)
    try:
        h = FUNCTIONS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if t is functools._lru_cache_wrapper:
        return call_lru(f, a, k)
    return f(*a, **k)


def call_lru(f, a, k):
    """functools.lru_cache with semantic key comparison."""
    if not sym_in(list(a) + list(k.values())):
        cache = LRU.get(id(f))
        if not cache:
            return f(*a, **k)
    cache = LRU.setdefault(id(f), [])
    for aa, kk, r in cache:
        if bool(eq(aa, a)) and bool(eq(kk, k)):
            return r
    r = call(f.__wrapped__, *a, **k)
    cache.append((a, dict(k), r))
    return r


LRU = {}
RE_FUNCS = {re.match: 'match', re.search: 'search', re.fullmatch: 'fullmatch',
            re.split: 'split', re.sub: 'sub', re.findall: 'findall',
            re.finditer: 'finditer', re.subn: 'subn'}


FILE_SYSTEM = ('genericpath', 'shutil', 'tempfile')


def call_foreign(f, a, k):
    """A python function that is not part of the code under test."""
    mod = f.__module__
    if f in RE_FUNCS:
        vals = list(a) + list(k.values())
        if any(type(x) is str and has_sym(x) for x in vals[1:]):
            from . import rx
            pat = a[0]
            rest = list(a[1:])
            kw = dict(k)
            flags = kw.pop('flags', 0)
            name = RE_FUNCS[f]
            npos = {'split': 2, 'sub': 3, 'subn': 3}.get(name, 1)
            if len(rest) > npos:
                flags = rest[npos]
                del rest[npos]
            if not isinstance(pat, re.Pattern):
                pat = re.compile(st.concretise_str(pat), flags)
            return rx.pattern_method(pat, name, rest, kw)
        if f in (re.sub, re.subn) or f is re.split:
            return f(*a, **k)
        return f(*a, **k)
    if f is re.escape:
        return re.escape(st.concretise_str(a[0]))
    if mod in FILE_SYSTEM and f.__name__ != 'commonprefix' or \
            mod == 'os' or a and type(a[0]) is os._Environ:
        # the system sees real values (environment variables included)
        return f(*[concretise(x) for x in a],
                 **{n: concretise(x) for n, x in k.items()})
    if mod in ON_DEMAND:
        from . import loader
        g = loader.on_demand(f)
        if g is not None:
            return g(*a, **k)
    return f(*a, **k)


def call_native(f, a, k):
    """A C function without a model."""
    try:
        if f in PASS or f in NATIVE_OK:
            return f(*a, **k)
    except TypeError:
        pass
    if not any(sym_in(x) for x in a) and \
            not any(sym_in(x) for x in k.values()):
        return f(*a, **k)
    mod = getattr(f, '__module__', '') or ''
    if mod in ('io', '_io') and f.__name__ == 'open' and a:
        # file names are compared by the file system
        a = (concretise(a[0]),) + tuple(a[1:])
        return f(*a, **k)
    if mod.split('.')[0] in ('_pickle', 'pickle', 'io', '_io', '_abc',
                             '_functools', 'sys', 'marshal', '_json'):
        return f(*a, **k)
    core.ENGINE.note("argument of %s.%s made concrete" % (mod, f.__name__))
    return f(*[concretise(x) for x in a],
             **{n: concretise(x) for n, x in k.items()})


NATIVE_OK = set()


def concretise(x):
    t = type(x)
    if t is str:
        return st.concretise_str(x)
    if t is SInt:
        return concrete_int(x)
    if t is SBool:
        return bool(x)
    if t is list:
        return [concretise(y) for y in x]
    if t is tuple:
        return tuple(concretise(y) for y in x)
    if t is dict:
        return {concretise(y): concretise(z) for y, z in x.items()}
    if t is bytes and bytes_sym(x):
        return st.concretise_str(x.decode('utf-8')).encode('utf-8')
    return x


def under(model, x):
    """Concrete, JSON-friendly value of ``x`` in ``model``."""
    t = type(x)
    if t is str:
        return st.concrete_under(model, x)
    if t is SInt:
        return model.eval(x.e, model_completion=True).as_long()
    if t is SBool:
        return z3.is_true(model.eval(x.f, model_completion=True))
    if t is bytes:
        try:
            return ["bytes", st.concrete_under(model, x.decode('utf-8'))]
        except UnicodeDecodeError:
            return ["bytes", repr(x)]
    if isinstance(x, (list, tuple)):
        return [under(model, y) for y in x]
    if isinstance(x, dict):
        return ["dict", [[under(model, k), under(model, v)]
                         for k, v in x.items()]]
    if isinstance(x, (set, frozenset)):
        return ["set", sorted([under(model, y) for y in x], key=repr)]
    if x is None or t in (int, float, bool):
        return x
    if isinstance(x, type):
        return ["type", x.__name__]
    if isinstance(x, BaseException):
        return ["exception", type(x).__name__]
    return ["object", t.__name__]


NAMESPACE = {
    '_sx_call_': call, '_sx_eq_': eq_op, '_sx_ne_': ne_op,
    '_sx_in_': in_op, '_sx_nin_': nin_op, '_sx_lt_': lt, '_sx_le_': le,
    '_sx_gt_': gt, '_sx_ge_': ge, '_sx_chain_': chain,
    '_sx_getitem_': getitem, '_sx_ref_': Ref, '_sx_dict_': mkdict,
    '_sx_set_': mkset, '_sx_iter_': iter_op, '_sx_slice_': slice_op,
    '_sx_binop_': binop, '_sx_iop_': iop, '_sx_exc_': exc_guard,
    '_sx_star_': NATIVE, '_sx_truth_': h_truth, '_sx_index_': h_index,
    '_sx_fmtarg_': fmtarg,
}
