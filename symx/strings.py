"""Symbolic strings as ordinary ``str`` objects.

A symbolic *character* is a code point U+20000+k (ideographs that no input
contains; they print and count as letters) standing for a z3 integer (the
code point of one unknown character).  A symbolic *atom* is a code point
U+24000+k standing for one whole unknown non-empty name; a z3 integer is its
identity (interned literals have fixed identities).  As
they are plain ``str``, concatenation, formatting, joining, dictionaries
that preserve insertion order, pickling and so on work natively; every
operation that looks at the *content* is intercepted (rt.py).
"""

import re
import z3

from . import core
from .core import mkbool, sand, sor, snot, SBool

CHAR0 = 0x20000
CHAR1 = 0x23FFF
ATOM0 = 0x24000
ATOM1 = 0x2A6DF

_SYM = re.compile("[\U00020000-\U0002A6DF]")
_ATOM = re.compile("[\U00024000-\U0002A6DF]")
IDENT = re.compile(r"[A-Za-z0-9_.+-]+\Z")

# characters a symbolic character may stand for unless stated otherwise:
# all of ASCII plus representatives of the classes Unicode adds
EXTRA_CHARS = "\x85\xa0\xb2\xdf\xe9\xc9\u0130\u0663\u2019\u2028\u3000\u4e2d\U0001f600"
DEFAULT_DOMAIN = tuple(range(0, 128)) + tuple(ord(c) for c in EXTRA_CHARS)


class Tables(object):
    def __init__(self):
        self.intern = {}      # literal -> id
        self.by_id = {}
        self.reset()

    def reset(self):
        self.chars = []       # (z3 expr, domain tuple)
        self.atoms = []       # (z3 expr, domain or None, extra)
        self.path_lits = []
        self.path_litset = set()
        self.conc = {}        # atom index -> literal
        self.ngeneric = 0
        self.charexpr = {}

    def lit_id(self, lit):
        i = self.intern.get(lit)
        if i is None:
            i = len(self.intern) + 1
            self.intern[lit] = i
            self.by_id[i] = lit
        return i

    def see(self, lit):
        if lit not in self.path_litset:
            self.path_litset.add(lit)
            self.path_lits.append(lit)
        return self.lit_id(lit)


T = Tables()


def has_sym(s):
    return _SYM.search(s) is not None


def has_atom(s):
    return _ATOM.search(s) is not None


def is_char_cell(c):
    return CHAR0 <= ord(c) <= CHAR1


def is_atom_cell(c):
    return ATOM0 <= ord(c) <= ATOM1


def new_char(expr, domain):
    key = expr.get_id()
    if key in T.charexpr:
        return chr(CHAR0 + T.charexpr[key])
    T.chars.append((expr, domain))
    k = len(T.chars) - 1
    if CHAR0 + k > CHAR1:
        core.ENGINE._abort(core.Unsupported("too many symbolic characters"))
    T.charexpr[key] = k
    return chr(CHAR0 + k)


def new_atom(expr, domain=None, extra=()):
    T.atoms.append((expr, domain, tuple(extra)))
    if ATOM0 + len(T.atoms) - 1 > ATOM1:
        core.ENGINE._abort(core.Unsupported("too many symbolic names"))
    return chr(ATOM0 + len(T.atoms) - 1)


def char_of(c):
    return T.chars[ord(c) - CHAR0]


def atom_of(c):
    return T.atoms[ord(c) - ATOM0]


def in_domain(expr, values):
    """Formula: the integer ``expr`` is one of ``values``."""
    vals = sorted(set(values))
    parts = []
    i = 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
            j += 1
        if i == j:
            parts.append(expr == vals[i])
        else:
            parts.append(z3.And(expr >= vals[i], expr <= vals[j]))
        i = j + 1
    if not parts:
        return False
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


def char_pred(c, pred):
    """Truth of a python predicate on one (possibly symbolic) character."""
    if is_char_cell(c):
        expr, dom = char_of(c)
        hits = [v for v in dom if pred(chr(v))]
        if not hits:
            return False
        if len(hits) == len(dom):
            return True
        if len(hits) * 2 > len(dom):
            rest = [v for v in dom if not pred(chr(v))]
            return snot(mkbool(in_domain(expr, rest)))
        return mkbool(in_domain(expr, hits))
    return bool(pred(c))


def char_eq(a, b):
    if a == b:
        return True
    sa, sb = is_char_cell(a), is_char_cell(b)
    if sa and sb:
        (ea, da), (eb, db) = char_of(a), char_of(b)
        if da is not db and not (set(da) & set(db)):
            return False
        return mkbool(ea == eb)
    if sa:
        a, b = b, a
        sb = True
    if sb:
        e, d = char_of(b)
        if ord(a) not in d:
            return False
        return mkbool(e == ord(a))
    return False


def char_lt(a, b):
    sa, sb = is_char_cell(a), is_char_cell(b)
    if not sa and not sb:
        return a < b
    ea = char_of(a)[0] if sa else z3.IntVal(ord(a))
    eb = char_of(b)[0] if sb else z3.IntVal(ord(b))
    return mkbool(ea < eb)


def letters(n):
    s = ""
    n += 1
    while n > 0:
        n, r = divmod(n - 1, 26)
        s = chr(97 + r) + s
    return s


def atom_lit_eq(c, lit):
    expr, dom, extra = atom_of(c)
    if dom is not None:
        if lit not in dom:
            return False
    elif not IDENT.match(lit) and lit not in extra:
        return False
    return mkbool(expr == T.see(lit))


def concretise_atom(c):
    k = ord(c) - ATOM0
    if k in T.conc:
        return T.conc[k]
    expr, dom, extra = T.atoms[k]
    if dom is not None:
        cands = list(dom)
    else:
        cands = list(T.path_lits)
        cands += [x for x in extra if x not in T.path_litset]
    for i, lit in enumerate(cands):
        if dom is not None and i == len(cands) - 1:
            core.ENGINE.assume(expr == T.see(lit))
            T.conc[k] = lit
            return lit
        eq = atom_lit_eq(c, lit)
        if eq is True or (eq is not False and bool(eq)):
            T.conc[k] = lit
            return lit
    lit = "zqc" + letters(T.ngeneric)
    T.ngeneric += 1
    core.ENGINE.assume(expr == T.see(lit))
    core.ENGINE.note("generic representative for a name")
    core.ENGINE.stats.concretised += 1
    T.conc[k] = lit
    return lit


def deatom(s):
    """Replace every atom of ``s`` by a concrete name (case split)."""
    if not has_atom(s):
        return s
    return "".join(concretise_atom(c) if is_atom_cell(c) else c for c in s)


def concretise_str(s):
    """Case split until ``s`` is fully concrete."""
    s = deatom(s)
    if not has_sym(s):
        return s
    out = []
    for c in s:
        if is_char_cell(c):
            e, dom = char_of(c)
            v = core.concrete_int(core.mkint(e))
            out.append(chr(v))
        else:
            out.append(c)
    return "".join(out)


def str_eq(a, b):
    """Equality of two (possibly symbolic) strings: bool or SBool."""
    if a == b:
        return True
    if not has_sym(a) and not has_sym(b):
        return False
    if not has_atom(a) and not has_atom(b):
        if len(a) != len(b):
            return False
        acc = []
        for x, y in zip(a, b):
            r = char_eq(x, y)
            if r is False:
                return False
            if r is not True:
                acc.append(r)
        return sand(*acc)
    la, lb = list(a), list(b)
    acc = []
    for end in (0, -1):
        while la and lb:
            x, y = la[end], lb[end]
            if x == y:
                la.pop(end)
                lb.pop(end)
                continue
            if is_atom_cell(x) or is_atom_cell(y):
                break
            r = char_eq(x, y)
            if r is False:
                return False
            if r is not True:
                acc.append(r)
            la.pop(end)
            lb.pop(end)
    if not la and not lb:
        return sand(*acc)
    if not la or not lb:
        return False
    if len(lb) == 1 and is_atom_cell(lb[0]):
        la, lb = lb, la
    if len(la) == 1 and is_atom_cell(la[0]):
        x = la[0]
        if len(lb) == 1 and is_atom_cell(lb[0]):
            (ex, dx, _), (ey, dy, _) = atom_of(x), atom_of(lb[0])
            if dx is not None and dy is not None and not set(dx) & set(dy):
                return False
            acc.append(mkbool(ex == ey))
            return sand(*acc)
        rest = "".join(lb)
        if not has_sym(rest):
            acc.append(atom_lit_eq(x, rest))
            return sand(*acc)
        if not has_atom(rest):
            # a name against text with symbolic characters: case split
            return sand(str_eq(concretise_atom(x), rest), *acc)
    # lengths: every atom has at least one character
    ma = min_len(la)
    mb = min_len(lb)
    if not any(is_atom_cell(c) for c in la) and len(la) < mb:
        return False
    if not any(is_atom_cell(c) for c in lb) and len(lb) < ma:
        return False
    return sand(str_eq(deatom("".join(la)), deatom("".join(lb))), *acc)


def min_len(cells):
    return len(cells)


def str_lt(a, b):
    """Lexicographic order (symbolic characters; atoms by case split)."""
    if not has_sym(a) and not has_sym(b):
        return a < b
    a, b = deatom(a), deatom(b)
    # a < b  <=>  exists i: prefix equal and (i == len(a) < len(b) or a[i]<b[i])
    res = []
    pre = []
    n = min(len(a), len(b))
    for i in range(n):
        res.append(sand(*(pre + [char_lt(a[i], b[i])])))
        pre.append(char_eq(a[i], b[i]))
    if len(a) < len(b):
        res.append(sand(*pre))
    return sor(*res)


# -- model -> concrete -----------------------------------------------------

def generic_name(i):
    n = "zqt" + letters(i if i >= 0 else -2 * i + 100000)
    return n


def concrete_under(model, s):
    """The concrete string ``s`` stands for in ``model``."""
    if not has_sym(s):
        return s
    out = []
    for c in s:
        o = ord(c)
        if ATOM0 <= o < ATOM0 + len(T.atoms):
            v = model.eval(T.atoms[o - ATOM0][0],
                           model_completion=True).as_long()
            lit = T.by_id.get(v)
            _, dom, extra = T.atoms[o - ATOM0]
            if lit is None or lit not in T.path_litset or not (
                    (dom is not None and lit in dom) or
                    (dom is None and (IDENT.match(lit) or lit in extra))):
                lit = generic_name(v)
            out.append(lit)
        elif CHAR0 <= o <= CHAR1 and o - CHAR0 < len(T.chars):
            v = model.eval(T.chars[o - CHAR0][0],
                           model_completion=True).as_long()
            out.append(chr(v))
        else:
            out.append(c)
    return "".join(out)
