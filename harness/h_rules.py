"""Rules files: shorthand expansion, verification, compaction, identifiers."""

from symx.hapi import harness
from lib import attempt, distinct, not_one_of, KEYWORDS, clone


def ident(S, label, allow=()):
    """A valid identifier that is no reserved word."""
    x = S.name(label)
    not_one_of(S, x, [k for k in KEYWORDS if k not in allow])
    return x


# -- shorthand ----------------------------------------------------------------
# Each generator returns (input, canonical form).

def gen_list(S, tag, kinds):
    k = S.pick(tag + '.form', kinds)
    new = ident if 'depends' in tag else lambda S, t: S.name(t)
    if k == 'null':
        return None, []
    if k == 'string':
        p = new(S, tag + '.p')
        return p, [p]
    n = {'list0': 0, 'list1': 1, 'list2': 2}[k]
    ps = [new(S, '%s.p%d' % (tag, i)) for i in range(n)]
    return list(ps), list(ps)


LISTS = ['null', 'string', 'list0', 'list1', 'list2']


def gen_definition(S, tag, full):
    """One installer rule in any notation."""
    forms = LISTS + ['dict'] if full else ['string', 'dict']
    f = S.pick(tag + '.def', forms)
    if f != 'dict':
        i, c = gen_list(S, tag, [f])
        return i, {'packages': c}
    d, c = {}, {}
    if S.bool(tag + '.packages'):
        d['packages'], c['packages'] = gen_list(
            S, tag + '.packages', LISTS if full else ['string'])
    if full and S.bool(tag + '.depends'):
        d['depends'], dep = gen_list(S, tag + '.depends', LISTS)
        if dep:
            c['depends'] = dep
    if S.bool(tag + '.other'):
        k = S.name(tag + '.option')
        not_one_of(S, k, ['packages', 'depends'])
        d[k] = c[k] = S.name(tag + '.value')
    return d, c


def gen_installers(S, tag, n, full):
    f = S.pick(tag + '.inst', ['short', 'dict'])
    if f == 'short':
        i, c = gen_list(S, tag, LISTS)
        return i, {'default_installer': {'packages': c}}
    d, c, names = {}, {}, []
    for j in range(S.count(tag + '.n', 0, n)):
        nm = ident(S, '%s.name%d' % (tag, j), ['default_installer'])
        names.append(nm)
        distinct(S, names)
        d[nm], c[nm] = gen_definition(S, '%s.%d' % (tag, j), full)
    return d, c


def gen_versions(S, tag, n, full):
    f = S.pick(tag + '.vers', ['short', 'dict'])
    if f == 'short':
        i, c = gen_list(S, tag, LISTS)
        return i, {'any_version': {'default_installer': {'packages': c}}}
    d, c, names = {}, {}, []
    for j in range(S.count(tag + '.nv', 0, n)):
        nm = ident(S, '%s.version%d' % (tag, j), ['any_version'])
        names.append(nm)
        distinct(S, names)
        d[nm], c[nm] = gen_installers(S, '%s.v%d' % (tag, j), 1, full)
    return d, c


def gen_any_os(S, tag, full):
    d, c = {}, {}
    for j in range(S.count(tag + '.n', 0, 1)):
        nm = ident(S, '%s.name%d' % (tag, j))
        d[nm], c[nm] = gen_definition(S, '%s.%d' % (tag, j), full)
    if S.bool(tag + '.explicit'):
        d = {'any_version': d}
    return d, {'any_version': c}


def gen_os_dict(S, shape, full):
    os_dict, canon = {}, {}
    if 'any_os' in shape:
        os_dict['any_os'], canon['any_os'] = gen_any_os(S, 'any', full)
    names = []
    for i in range(len([x for x in shape if x == 'os'])):
        nm = ident(S, 'os%d' % i)
        names.append(nm)
        distinct(S, names)
        os_dict[nm], canon[nm] = gen_versions(S, 'o%d' % i, 2, full)
    return os_dict, canon


@harness('C01', bounds="rules dict with one key; one OS with up to two "
         "versions and one installer rule each, or any_os plus one OS; all "
         "notations (null, string, lists up to two, dicts with packages, "
         "depends and one other option) with arbitrary names",
         quick=[{'shape': ['any_os'], 'full': True, 'nv': 0},
                {'shape': [], 'full': True, 'nv': 1},
                {'shape': ['any_os'], 'full': False, 'nv': 1},
                {'shape': [], 'full': False, 'nv': 2}],
         thorough=[{'shape': ['any_os'], 'full': True, 'nv': 0},
                   {'shape': ['any_os'], 'full': True, 'nv': 1},
                   {'shape': ['any_os'], 'full': False, 'nv': 2}],
         covers=['short os', 'short version', 'any_os short', 'dict rule'])
def expansion_is_canonical(S, shape, full, nv):
    from xylem.specs.plugins.rules import expand_rules
    key = ident(S, 'key')
    os_dict, canon = {}, {}
    if 'any_os' in shape:
        os_dict['any_os'], canon['any_os'] = gen_any_os(S, 'any', full)
        if 'any_version' not in os_dict['any_os']:
            S.cover('any_os short')
    if nv:
        nm = ident(S, 'os')
        os_dict[nm], canon[nm] = gen_versions(S, 'o', nv, full)
        if not isinstance(os_dict[nm], dict):
            S.cover('short os')
        else:
            for v in os_dict[nm].values():
                if isinstance(v, list):
                    S.cover('short version')
                elif isinstance(v, dict):
                    S.cover('dict rule')
    got = expand_rules({key: os_dict})
    S.log('expanded', got)
    S.check(got == {key: canon}, "expanded rules are not the canonical form "
            "of the notation")
    again = expand_rules(clone(got))
    S.check(again == got, "expanding expanded rules changes them")


@harness('C01', bounds="empty and null rules files")
def expansion_of_empty_files(S):
    from xylem.specs.plugins.rules import expand_rules
    S.check(expand_rules(S.pick('rules', [None, {}])) == {},
            "an empty rules file is not an empty rules dict")


# -- malformed rules -------------------------------------------------------------

BAD = {
    'rules': ['list', 'string', 'int', 'true'],
    'os_dict': ['null', 'list', 'string', 'int', 'true'],
    'version_dict': ['int', 'true', 'float'],
    'installer_dict': ['int', 'true', 'float'],
    'rule': ['int', 'true', 'float'],
    'packages': ['int', 'true', 'dict'],
    'depends': ['int', 'true', 'dict', 'list of int', 'list of bad'],
    'key': ['int', 'null', 'true', 'bad', 'any_key'],
    'os': ['int', 'true', 'bad', 'any_version', 'default_installer'],
    'version': ['int', 'true', 'bad', 'any_os', 'default_installer'],
    'installer': ['int', 'true', 'bad', 'any_os', 'any_version',
                  'unset_installers'],
    'option': ['int', 'true'],
    'any_os': ['default_installer', 'string', 'version'],
}


def bad_value(S, kind):
    if kind == 'int':
        return 7
    if kind == 'float':
        return 12.04
    if kind == 'true':
        return True
    if kind == 'null':
        return None
    if kind == 'string':
        return S.name('bad.string')
    if kind == 'list':
        return [S.name('bad.item')]
    if kind == 'dict':
        return {}
    if kind == 'list of int':
        return [7]
    if kind == 'list of bad':
        keys = ['k%d' % i for i in range(S.count('fine', 0, 3))]
        keys.insert(S.pick('bad at', list(range(len(keys) + 1))),
                    S.pick('bad.key', ['a b', '', 'any_os']))
        return keys
    if kind == 'bad':
        return S.pick('bad.name', ['', 'a b', 'a/b', 'a\n', ' a', 'a:'])
    return kind


@harness('C02', bounds="rules dict with one key, one OS, one version and one "
         "installer rule, arbitrary names; exactly one place is malformed: "
         "wrong type at any level, an invalid or reserved name, or an "
         "any_os entry with versions or the default installer",
         quick=[{'places': p} for p in (
             ['rules', 'os_dict', 'version_dict', 'installer_dict', 'rule'],
             ['packages', 'depends', 'option', 'any_os'],
             ['key', 'os', 'version', 'installer'])],
         covers=['any_os', 'any_version', 'explicit version'] +
         sorted(BAD))
def malformed_rules_are_rejected(S, places):
    from xylem.specs.plugins.rules import RulesSpec, expand_rules
    from xylem.exception import XylemError
    place = S.pick('place', places)
    if place == 'any_os':
        S.cover('any_os')
    kind = S.pick('kind', BAD[place])
    bad = bad_value(S, kind)
    in_any_os = place == 'any_os' or (
        place not in ('os', 'version', 'version_dict') and
        S.bool('in any_os'))
    key = ident(S, 'key')
    osn = 'any_os' if in_any_os else ident(S, 'os')
    ver = 'any_version' if in_any_os or S.bool('any version') \
        else ident(S, 'version')
    if ver == 'any_version':
        S.cover('any_version')
    else:
        S.cover('explicit version')
    inst = ident(S, 'installer')
    pkg = S.name('pkg')
    rule = {'packages': [pkg]}
    if place in ('packages', 'depends', 'option') and S.bool('nothing else'):
        rule = {}
    if place in ('packages', 'depends'):
        rule[place] = bad
    if place == 'option':
        rule[bad] = S.name('value')
    installers = {bad if place == 'installer' else inst:
                  bad if place == 'rule' else rule}
    versions = {bad if place == 'version' else ver:
                bad if place == 'installer_dict' else installers}
    oss = {bad if place == 'os' else osn:
           bad if place == 'version_dict' else versions}
    if place == 'any_os':
        if kind == 'default_installer':
            oss['any_os']['any_version']['default_installer'] = [pkg]
        elif kind == 'string':
            oss['any_os'] = bad
        else:
            oss['any_os'][ident(S, 'extra')] = {inst: [pkg]}
    rules = {bad if place == 'key' else key:
             bad if place == 'os_dict' else oss}
    if place == 'rules':
        rules = bad
    spec = RulesSpec()

    def load():
        data = expand_rules(rules)
        spec.verify_data(data, 'url')

    how, e = attempt(load)
    S.log('outcome', [how, type(e).__name__])
    S.cover(place)
    S.check(how == 'exc', "malformed rules are accepted")
    S.check(isinstance(e, (ValueError, XylemError)),
            "malformed rules raise an unrelated error",
            finding='SpecParsingError.__init__' if isinstance(e, TypeError)
            and "received a 'SpecParsingError'" in str(e) else None)


@harness('C02', bounds="all well-formed rules within the bounds of the "
         "expansion harness", quick=[{'n': 1, 'full': False}],
         thorough=[{'n': 1, 'full': True}, {'n': 2, 'full': False}],
         covers=['accepted'])
def wellformed_rules_are_accepted(S, n, full):
    from xylem.specs.plugins.rules import RulesSpec, expand_rules
    key = ident(S, 'key')
    os_dict = {}
    if S.bool('any_os'):
        os_dict['any_os'], _ = gen_any_os(S, 'any', False)
    else:
        nm = ident(S, 'os')
        os_dict[nm], _ = gen_versions(S, 'o', n, full)
    data = expand_rules({key: os_dict})
    spec = RulesSpec()
    how, e = attempt(spec.verify_data, data, 'url')
    S.log('outcome', [how])
    S.check(how == 'ok', "well-formed rules are rejected")
    S.cover('accepted')


FLAWS = ['rule', 'packages', 'depends', 'installer', 'version', 'os', 'key',
         'default_installer', 'versions of any_os', 'none']


@harness('C02', bounds="two entries in rules, OS dict, version dict or "
         "installer dict, or all of one entry; one of the entries has one of "
         "n flaws or none has", quick=[{'flaws': FLAWS[:5]},
                                       {'flaws': FLAWS[5:]}],
         covers=['accepted', 'first', 'second', 'any_os', 'default installer'])
def each_entry_is_verified(S, flaws):
    from xylem.specs.plugins.rules import RulesSpec, expand_rules
    from xylem.exception import XylemError
    flaw = S.pick('flaw', flaws)
    level = S.pick('two', ['keys', 'oss', 'versions', 'installers', 'none'])
    bad_at = S.pick('flaw at', [0, 1]) if level != 'none' and \
        flaw != 'none' else 0
    words = {}
    pkg = S.name('p')

    def word(label, i, kind):
        """A name of the i-th entry, malformed where it shall be."""
        if flaw == kind and i:
            return 'a b'
        if kind != 'installer':
            return label
        if label not in words:
            words[label] = ident(S, label)
            for other in words:
                if other != label:
                    S.assume(words[other] != words[label])
        return words[label]

    def rule(flawed):
        r = {'packages': [pkg]}
        if flawed and flaw in ('packages', 'depends'):
            r[flaw] = 7
        return 7 if flawed and flaw == 'rule' else r

    def entries(which, flawed, make):
        out = {}
        two = level == which
        for i in range(2 if two else 1):
            k, v = make(i, flawed and (not two or i == bad_at))
            out[k] = v
        return out

    def installer(i, flawed, any_os):
        if flawed and flaw == 'default_installer':
            return 'default_installer', rule(False)
        if i == 0 and not any_os and not flawed and S.bool('default'):
            S.cover('default installer')
            return 'default_installer', rule(flawed)
        return word('inst%d' % i, flawed, 'installer'), rule(flawed)

    def version(i, flawed, any_os):
        if any_os and not (flawed and flaw == 'versions of any_os'):
            v = 'any_version'
        elif i == 0 and not flawed:
            v = 'any_version'
        else:
            v = word('ver%d' % i, flawed, 'version')
        return v, entries('installers', flawed,
                          lambda i, f: installer(i, f, any_os))

    def os_(i, flawed):
        any_os = flawed and flaw in ('default_installer',
                                     'versions of any_os')
        # one entry at most is for any OS
        if not any_os and i == 1 - bad_at and level != 'versions' and \
                flaw not in ('os', 'version') and not (
                    flaw in ('default_installer', 'versions of any_os')):
            any_os = S.bool('any_os')
        if any_os:
            S.cover('any_os')
            k = 'any_os'
        else:
            k = word('os%d' % i, flawed, 'os')
        versions = entries('versions', flawed, lambda i, f:
                           version(i, f, any_os))
        if flawed and flaw == 'versions of any_os':
            versions['any_version'] = {'other': rule(False)}
        return k, versions

    if flaw in ('default_installer', 'versions of any_os'):
        S.assume(level != 'versions')
    rules = entries('keys', flaw != 'none', lambda i, f: (
        word('key%d' % i, f, 'key'), entries('oss', f, os_)))
    how, e = attempt(lambda: RulesSpec().verify_data(expand_rules(rules),
                                                     'url'))
    S.log('outcome', [how])
    if flaw == 'none':
        S.check(how == 'ok', "well-formed rules are rejected")
        S.cover('accepted')
        return
    S.cover('second' if bad_at else 'first')
    S.check(how == 'exc', "malformed rules are accepted")
    S.check(isinstance(e, (ValueError, XylemError)),
            "malformed rules raise an unrelated error",
            finding='SpecParsingError.__init__' if isinstance(e, TypeError)
            and "received a 'SpecParsingError'" in str(e) else None)


@harness('C02', bounds="expanded installer dicts with up to two installers, "
         "arbitrary names; with and without the default installer allowed",
         covers=['rejected', 'accepted'])
def default_installer_only_where_allowed(S):
    from xylem.sources.rules_dict import verify_installer_dict
    from xylem.sources.rules_dict import verify_rules_dict
    a, b = S.name('a'), S.name('b')
    distinct(S, [a, b])
    not_one_of(S, a, ['any_os', 'any_version', 'unset_installers',
                      'any_key'])
    not_one_of(S, b, ['any_os', 'any_version', 'unset_installers',
                      'any_key'])
    allow = S.bool('allow')
    d = {a: {'packages': []}, b: {'packages': [], 'depends': []}}
    if S.bool('whole'):
        how, e = attempt(verify_rules_dict, {
            ident(S, 'key'): {ident(S, 'os'): {ident(S, 'version'): d}}},
            allow_default_installer=allow)
    else:
        how, e = attempt(verify_installer_dict, d,
                         allow_default_installer=allow)
    has = a == 'default_installer' or b == 'default_installer'
    S.log('outcome', [how])
    if has and not allow:
        S.check(how == 'exc' and isinstance(e, ValueError),
                "default installer accepted where it is not allowed")
        S.cover('rejected')
    else:
        S.check(how == 'ok', "valid installer dict rejected")
        S.cover('accepted')


# -- identifiers -------------------------------------------------------------------

KINDS = {
    'verify_xylem_key': [],
    'verify_os_name': ['any_os'],
    'verify_os_version': ['any_version'],
    'verify_installer_name': ['default_installer'],
}


@harness('C09', bounds="all strings of up to n characters over ASCII and "
         "selected other characters, for keys, OS names, versions and "
         "installer names", quick=[{'n': 3}], thorough=[{'n': 5}],
         covers=['accepted', 'rejected', 'empty'])
def identifier_characters(S, n):
    import xylem.sources.rules_dict as rd
    fn = S.pick('kind', sorted(KINDS))
    x = S.text('id', n)
    how, e = attempt(getattr(rd, fn), x)
    S.log('outcome', [how])
    ok = len(x) > 0
    for c in x:
        if not (c.isalnum() or c in '_.+-\u2019'):
            ok = False
    if ok:
        S.check(how == 'ok', "valid identifier rejected")
        S.cover('accepted')
    else:
        S.check(how == 'exc' and isinstance(e, ValueError),
                "identifier with disallowed characters accepted")
        S.cover('rejected')
        if len(x) == 0:
            S.cover('empty')


# names resembling reserved words
NEARLY = [v for k in KEYWORDS for v in (
    k.upper(), k.capitalize(), k[0] + k[1:].upper(), k + 's', 'x' + k, k[1:],
    k[:-1], k.replace('_', '-'), k.replace('_', ''))]


@harness('C09', bounds="arbitrary identifier-like names including every "
         "reserved word and names resembling one, and values that are no strings",
         covers=['keyword', 'allowed keyword', 'name', 'no string',
                 'whitelist', 'more than the whitelist'])
def identifier_keywords(S):
    import xylem.sources.rules_dict as rd
    fn = S.pick('kind', sorted(KINDS))
    t = S.pick('type', ['name', 'mountain lion', 'other'])
    if t == 'other':
        how, e = attempt(getattr(rd, fn), S.pick(
            'value', [None, 3, True, 1.5, ['a'], {}, b'a']))
        S.check(how == 'exc' and isinstance(e, ValueError),
                "identifier that is no string accepted")
        S.cover('no string')
        return
    if t == 'mountain lion':
        a, b = S.text('before', 1), S.text('behind', 1)
        how, e = attempt(getattr(rd, fn), a + 'mountain lion' + b)
        if len(a) + len(b):
            S.check(how == 'exc' and isinstance(e, ValueError),
                    "identifier with a space accepted")
            S.cover('more than the whitelist')
        else:
            S.check(how == 'ok', "'mountain lion' rejected")
            S.cover('whitelist')
        return
    x = S.name('id', extra=KEYWORDS + NEARLY)
    how, e = attempt(getattr(rd, fn), x)
    S.log('outcome', [how])
    if x in KEYWORDS:
        if x in KINDS[fn]:
            S.check(how == 'ok', "keyword rejected where it has a meaning")
            S.cover('allowed keyword')
        else:
            S.check(how == 'exc' and isinstance(e, ValueError),
                    "reserved keyword accepted as identifier")
            S.cover('keyword')
    else:
        S.check(how == 'ok', "valid identifier rejected")
        S.cover('name')
