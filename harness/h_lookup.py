"""Rules lookup: precedence of versions, any_version, any_os, sources."""

from symx.hapi import harness
from lib import distinct, not_one_of, clone


def installer_dict(S, tag, n, allow_default):
    """Symbolic installer dict with at most n entries."""
    names = []
    for i in range(S.count(tag + '.n', 0, n)):
        nm = S.name('%s.inst%d' % (tag, i))
        if not allow_default:
            S.assume(nm != 'default_installer')
        not_one_of(S, nm, ['any_os', 'any_version'])
        names.append(nm)
    distinct(S, names)
    d = {}
    for i, nm in enumerate(names):
        d[nm] = {'packages': ['%s-%d' % (tag, i)]}
    return d


def replaced(d, default):
    """Expected installer dict after replacing default_installer."""
    r = {}
    for k, v in d.items():
        if k == 'default_installer':
            r[default] = v
        else:
            r[k] = v
    return r


@harness('C04', bounds="one key, one OS entry plus any_os, one specific "
         "version plus any_version, <= n installers per entry, arbitrary "
         "names", quick=[{'n': 1}, {'n': 2, 'levels': 2}],
         thorough=[{'n': 1}, {'n': 2}],
         covers=['specific', 'any_version', 'any_os', 'default', 'nothing',
                 'point release', 'case'])
def lookup_precedence(S, n, levels=3):
    from xylem.sources.rules_dict import lookup_rules
    key, okey = S.name('key'), S.name('query.key')
    osn, oos = S.name('os'), S.name('query.os')
    ver, over = S.name('version'), S.name('query.version')
    if n == 1 and S.bool('case'):
        # names are the same only with the same case
        (key, okey), (osn, oos), (ver, over) = (
            S.pick('case of ' + x, [('Xy', 'xy'), ('xy', 'Xy'), ('Xy', 'Xy')])
            for x in ('key', 'os', 'version'))
        S.cover('case')
    elif n == 1 and S.bool('point release'):
        # one version may be the beginning of the other
        where = S.pick('point in', ['rule', 'query', 'both'])
        ver += '' if where == 'query' else S.pick('point', ['.1', '.10'])
        over += '' if where == 'rule' else S.pick('point', ['.1', '.10'])
        S.cover('point release')
    dflt = S.name('default')
    for x in (osn, oos, ver, over, dflt):
        not_one_of(S, x, ['any_os', 'any_version', 'default_installer'])
    os_dict = {}
    any_os = any_ver = spec = None
    if levels == 3 and S.bool('has any_os'):
        any_os = installer_dict(S, 'any_os', n, False)
        os_dict['any_os'] = {'any_version': any_os}
    if S.bool('has os'):
        vd = {}
        if S.bool('has any_version'):
            any_ver = installer_dict(S, 'any_version', n, True)
            vd['any_version'] = any_ver
        if S.bool('has version'):
            spec = installer_dict(S, 'version', n, True)
            vd[ver] = spec
        os_dict[osn] = vd
    for d in (any_ver, spec):
        if d is not None and 'default_installer' in d:
            S.assume(dflt not in d)
    rules = {key: os_dict}
    before = clone(rules)
    got = lookup_rules(rules, okey, oos, over, dflt)
    want = {}
    if okey == key:
        if any_os is not None:
            want.update(any_os)
        if oos == osn:
            if any_ver is not None:
                want.update(replaced(any_ver, dflt))
            if spec is not None and over == ver:
                want.update(replaced(spec, dflt))
    S.check(got == want, "lookup does not combine any_os, any_version and "
            "the specific version with increasing precedence per installer")
    S.check('default_installer' not in got, "default_installer not replaced")
    S.log('result', got)
    S.check(rules == before, "lookup modifies the rules")
    if spec and over == ver and oos == osn and okey == key:
        S.cover('specific')
    if any_ver and not spec and got:
        S.cover('any_version')
    if any_os and not any_ver and not spec and got:
        S.cover('any_os')
    if dflt in got and any_ver and 'default_installer' in any_ver:
        S.cover('default')
    if not got:
        S.cover('nothing')
