"""Regular expressions over strings with symbolic characters.

The pattern's parse tree (the one CPython's own ``re`` compiles) is
interpreted by a backtracking matcher; every test of a symbolic character
is a decision of the engine.
"""

import re
import re._parser as sre
import re._constants as K

from . import core
from . import strings as st
from .core import sand, sor, snot
from .strings import deatom, has_sym

_trees = {}


def tree_of(pat):
    key = (pat.pattern, pat.flags)
    if key not in _trees:
        _trees[key] = sre.parse(pat.pattern, pat.flags & ~re.DEBUG)
    return _trees[key]


def unsupported(what):
    core.ENGINE._abort(core.Unsupported("regular expression: %s" % what))


class M(object):
    def __init__(self, pat, s, flags):
        self.pat = pat
        self.s = s
        self.n = len(s)
        self.flags = flags

    # a continuation k(i, groups) returns a result or None

    def seq(self, nodes, j, i, g, k, flags):
        if j == len(nodes):
            return k(i, g)
        op, av = nodes[j]
        nxt = lambda i2, g2: self.seq(nodes, j + 1, i2, g2, k, flags)
        if op is K.LITERAL or op is K.NOT_LITERAL or op is K.ANY or \
                op is K.IN:
            if i < self.n and bool(self.one(op, av, self.s[i], flags)):
                return nxt(i + 1, g)
            return None
        if op is K.MAX_REPEAT or op is K.MIN_REPEAT or \
                op is getattr(K, 'POSSESSIVE_REPEAT', None):
            lo, hi, sub = av
            if op is getattr(K, 'POSSESSIVE_REPEAT', None):
                unsupported("possessive repeat")
            return self.rep(sub, lo, hi, op is K.MAX_REPEAT, i, g, nxt,
                            flags, 0)
        if op is K.SUBPATTERN:
            gid, add, sub_f, sub = av
            fl = (flags | add) & ~sub_f

            def done(i2, g2):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, i2)
                    g2['last'] = gid
                return nxt(i2, g2)
            return self.seq(list(sub), 0, i, g, done, fl)
        if op is K.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, g, nxt, flags)
                if r is not None:
                    return r
            return None
        if op is K.AT:
            return nxt(i, g) if bool(self.at(av, i, flags)) else None
        if op is K.ASSERT or op is K.ASSERT_NOT:
            d, sub = av
            if d < 0:
                w = sub.getwidth()
                if w[0] != w[1]:
                    unsupported("variable look-behind")
                p = i - w[0]
                r = None
                if p >= 0:
                    r = self.seq(list(sub), 0, p, g,
                                 lambda i2, g2: (i2, g2), flags)
            else:
                r = self.seq(list(sub), 0, i, g,
                             lambda i2, g2: (i2, g2), flags)
            if op is K.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, g) if r is None else None
        if op is K.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            t = self.s[a:b]
            if i + len(t) > self.n:
                return None
            if bool(sand(*[st.char_eq(x, y)
                           for x, y in zip(t, self.s[i:i + len(t)])])):
                return nxt(i + len(t), g)
            return None
        if op is K.GROUPREF_EXISTS:
            cond, yes, no = av
            sub = yes if cond in g else no
            return self.seq(list(sub or []), 0, i, g, nxt, flags)
        unsupported(str(op))

    def rep(self, sub, lo, hi, greedy, i, g, k, flags, count):
        nodes = list(sub)

        def more():
            if hi is not K.MAXREPEAT and count >= hi:
                return None

            def again(i2, g2):
                if i2 == i and count >= lo:
                    return None
                return self.rep(sub, lo, hi, greedy, i2, g2, k, flags,
                                count + 1)
            return self.seq(nodes, 0, i, g, again, flags)
        if count < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not None else k(i, g)
        r = k(i, g)
        return r if r is not None else more()

    def one(self, op, av, c, flags):
        if op is K.ANY:
            if flags & re.DOTALL:
                return True
            return st.char_pred(c, lambda x: x != '\n')
        ic = bool(flags & re.IGNORECASE)

        def test(x):
            # decided by the real re on one concrete character
            return self.single(op, av, flags).match(x) is not None
        if op is K.LITERAL and not ic:
            return st.char_eq(c, chr(av))
        if op is K.NOT_LITERAL and not ic:
            return snot(st.char_eq(c, chr(av)))
        return st.char_pred(c, test)

    _single = {}

    def single(self, op, av, flags):
        key = (op, repr(av), flags)
        p = M._single.get(key)
        if p is None:
            src = self.unparse(op, av)
            p = M._single[key] = re.compile(
                src, flags & (re.IGNORECASE | re.ASCII | re.DOTALL))
        return p

    @staticmethod
    def unparse(op, av):
        if op is K.LITERAL:
            return re.escape(chr(av))
        if op is K.NOT_LITERAL:
            return "[^%s]" % M.esc(av)
        out = []
        neg = ""
        for o, v in av:
            if o is K.NEGATE:
                neg = "^"
            elif o is K.LITERAL:
                out.append(M.esc(v))
            elif o is K.RANGE:
                out.append(M.esc(v[0]) + "-" + M.esc(v[1]))
            elif o is K.CATEGORY:
                out.append({K.CATEGORY_DIGIT: r"\d",
                            K.CATEGORY_NOT_DIGIT: r"\D",
                            K.CATEGORY_SPACE: r"\s",
                            K.CATEGORY_NOT_SPACE: r"\S",
                            K.CATEGORY_WORD: r"\w",
                            K.CATEGORY_NOT_WORD: r"\W"}[v])
            else:
                unsupported("class item %s" % o)
        return "[" + neg + "".join(out) + "]"

    @staticmethod
    def esc(v):
        return "\\U%08x" % v

    def at(self, av, i, flags):
        s, n = self.s, self.n
        if av is K.AT_BEGINNING:
            if i == 0:
                return True
            if flags & re.MULTILINE:
                return st.char_eq(s[i - 1], '\n')
            return False
        if av is K.AT_BEGINNING_STRING:
            return i == 0
        if av is K.AT_END_STRING:
            return i == n
        if av is K.AT_END:
            if i == n:
                return True
            if flags & re.MULTILINE:
                return st.char_eq(s[i], '\n')
            if i == n - 1:
                return st.char_eq(s[i], '\n')
            return False
        if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            w = re.compile(r"\w", flags & re.ASCII)
            isw = lambda x: w.match(x) is not None
            a = bool(st.char_pred(s[i - 1], isw)) if i > 0 else False
            b = bool(st.char_pred(s[i], isw)) if i < n else False
            return (a != b) == (av is K.AT_BOUNDARY)
        unsupported(str(av))


class Match(object):
    """Stand-in for re.Match."""

    def __init__(self, pat, s, i, j, g, pos, endpos):
        self.re = pat
        self.string = s
        self.pos = pos
        self.endpos = endpos
        self._g = dict(g)
        self._g[0] = (i, j)

    def _id(self, x):
        if isinstance(x, str):
            if x not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[x]
        if x > self.re.groups or x < 0:
            raise IndexError("no such group")
        return x

    def _get(self, x, default=None):
        sp = self._g.get(self._id(x))
        return default if sp is None else self.string[sp[0]:sp[1]]

    def group(self, *ids):
        if not ids:
            return self._get(0)
        if len(ids) == 1:
            return self._get(ids[0])
        return tuple(self._get(x) for x in ids)

    def __getitem__(self, x):
        return self._get(x)

    def groups(self, default=None):
        return tuple(self._get(x, default)
                     for x in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._get(i, default)
                for n, i in self.re.groupindex.items()}

    def span(self, x=0):
        return self._g.get(self._id(x), (-1, -1))

    def start(self, x=0):
        return self.span(x)[0]

    def end(self, x=0):
        return self.span(x)[1]

    @property
    def lastindex(self):
        return self._g.get('last')

    @property
    def lastgroup(self):
        li = self.lastindex
        for n, i in self.re.groupindex.items():
            if i == li:
                return n
        return None

    def expand(self, template):
        return expand(template, self)


def expand(template, m):
    if '\\' not in template:
        return template
    out = []
    i = 0
    while i < len(template):
        c = template[i]
        if c != '\\':
            out.append(c)
            i += 1
            continue
        c2 = template[i + 1]
        if c2.isdigit():
            j = i + 1
            while j < len(template) and j < i + 3 and template[j].isdigit():
                j += 1
            out.append(m._get(int(template[i + 1:j])) or '')
            i = j
        elif c2 == 'g':
            j = template.index('>', i)
            name = template[i + 3:j]
            out.append(m._get(int(name) if name.isdigit() else name) or '')
            i = j + 1
        else:
            out.append({'n': '\n', 't': '\t', '\\': '\\'}.get(c2, '\\' + c2))
            i += 2
    return ''.join(out)


def match_at(pat, s, i, endpos, full=False):
    nodes = list(tree_of(pat))
    m = M(pat, s[:endpos], pat.flags)

    def k(j, g):
        if full and j != endpos:
            return None
        return (j, g)
    return m.seq(nodes, 0, i, {}, k, pat.flags)


def search_from(pat, s, i, pos, endpos):
    while i <= endpos:
        r = match_at(pat, s, i, endpos)
        if r is not None:
            return Match(pat, s, i, r[0], r[1], pos, endpos)
        i += 1
    return None


def finditer(pat, s, pos=0, endpos=None):
    endpos = len(s) if endpos is None else min(endpos, len(s))
    i = pos
    last_empty = None
    while i <= endpos:
        m = search_from(pat, s, i, pos, endpos)
        if m is None:
            return
        if m.end() == m.start():
            # CPython: empty matches adjacent to a previous match allowed
            yield m
            # retry a non-empty match at the same place is not modelled
            i = m.end() + 1
        else:
            yield m
            i = m.end()
            last_empty = i


def pattern_method(pat, name, a, k):
    names = {'match': ('string', 'pos', 'endpos'),
             'search': ('string', 'pos', 'endpos'),
             'fullmatch': ('string', 'pos', 'endpos'),
             'findall': ('string', 'pos', 'endpos'),
             'finditer': ('string', 'pos', 'endpos'),
             'split': ('string', 'maxsplit'),
             'sub': ('repl', 'string', 'count'),
             'subn': ('repl', 'string', 'count')}.get(name)
    if names is None:
        unsupported("method %s" % name)
    args = dict(zip(names, a))
    args.update(k)
    s = deatom(args['string'])
    if name in ('match', 'search', 'fullmatch', 'findall', 'finditer'):
        pos = args.get('pos', 0)
        endpos = min(args.get('endpos', len(s)), len(s))
        if not has_sym(s):
            return getattr(pat, name)(s, pos, endpos)
        if name == 'search':
            return search_from(pat, s, pos, pos, endpos)
        if name in ('match', 'fullmatch'):
            r = match_at(pat, s, pos, endpos, name == 'fullmatch')
            return None if r is None else \
                Match(pat, s, pos, r[0], r[1], pos, endpos)
        if name == 'finditer':
            return finditer(pat, s, pos, endpos)
        out = []
        for m in finditer(pat, s, pos, endpos):
            g = m.groups('')
            out.append(m.group() if pat.groups == 0 else
                       (g[0] if pat.groups == 1 else g))
        return out
    if name == 'split':
        if not has_sym(s):
            return pat.split(s, args.get('maxsplit', 0))
        mx = args.get('maxsplit', 0)
        out = []
        last = 0
        n = 0
        for m in finditer(pat, s):
            if mx and n >= mx:
                break
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(s[last:])
        return out
    repl = args['repl']
    count = args.get('count', 0)
    from . import rt
    out = []
    last = 0
    n = 0
    for m in (finditer(pat, s) if has_sym(s) else pat.finditer(s)):
        if count and n >= count:
            break
        out.append(s[last:m.start()])
        if isinstance(repl, str):
            out.append(expand(repl, m))
        else:
            out.append(rt.call(repl, m))
        last = m.end()
        n += 1
    out.append(s[last:])
    res = ''.join(out)
    return res if name == 'sub' else (res, n)
