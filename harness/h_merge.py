"""Combining rules: compaction, merging, several sources, key listing."""

from http.client import HTTPMessage

from symx.hapi import harness
from lib import attempt, distinct, not_one_of, clone, spec_lookup, make_ic
from lib import gen_rules, gen_inst


def one_of_packages(S, tag, full):
    n = S.count(tag + '.np', 0, 2) if full else 1
    return [S.name(tag + '.pkg') for _ in range(n)]


def gen_rule(S, tag, full):
    r = {'packages': one_of_packages(S, tag, full)}
    if S.bool(tag + '.more'):
        r[S.pick(tag + '.opt', ['depends', 'option'])] = [S.pick(tag + '.o', ['x', 'y'])]
    return r


@harness('C03', bounds="one key; one OS with any subset of any_version and "
         "two versions (or any_os), up to two installers each with up to two "
         "packages and one further option; with and without a default "
         "installer for the OS",
         quick=[{'full': False, 'versions': 1}, {'full': True, 'versions': 0},
                {'full': False, 'versions': 2, 'ni': 1}],
         thorough=[{'full': True, 'versions': 1, 'ni': 1},
                   {'full': False, 'versions': 2},
                   {'full': True, 'versions': 0}],
         covers=['os', 'any_os', 'dropped version', 'short', 'no default'])
def compaction_loses_nothing(S, full, versions, ni=2):
    from xylem.specs.plugins.rules import compact_rules, expand_rules
    from xylem.sources.rules_dict import verify_rules_dict
    default = S.pick('default', ['apt', None])

    def installers(tag, pool):
        combos = [[]] + [[x] for x in pool]
        if ni > 1:
            combos += [[x, y] for i, x in enumerate(pool)
                       for y in pool[i + 1:]
                       if (x, y) != ('apt', 'default_installer')]
        return {x: gen_rule(S, tag + '.' + x, full)
                for x in S.pick(tag + '.names', combos)}

    os_dict = {}
    pool = ['apt', 'pip', 'default_installer']
    if S.bool('any_os'):
        os_dict['any_os'] = {
            'any_version': installers('any', ['apt', 'pip'])}
        S.cover('any_os')
    else:
        vd = {}
        if S.bool('any_version'):
            vd['any_version'] = installers('av', pool)
        for i in range(versions):
            if S.bool('has v%d' % i):
                vd['v%d' % i] = installers('v%d' % i, pool)
        for d in vd.values():
            if default is None and 'default_installer' in d:
                S.cover('no default')
        os_dict['ubuntu'] = vd
        S.cover('os')
    rules = {'key': os_dict}
    before = clone(rules)
    compacted = compact_rules(rules, {'ubuntu': default} if default else
                              {'debian': 'apt'})
    S.log('compacted', compacted)
    if isinstance(compacted['key'].get('ubuntu'), list):
        S.cover('short')
    elif len(compacted['key'].get('ubuntu', {})) < \
            len(before['key'].get('ubuntu', {})):
        S.cover('dropped version')
    again = expand_rules(clone(compacted))
    verify_rules_dict(again)
    lookup_default = default or 'fallback'
    for osn in ('ubuntu', 'other'):
        for v in ('v0', 'v1', 'v2'):
            S.check(spec_lookup(again, 'key', osn, v, lookup_default) ==
                    spec_lookup(before, 'key', osn, v, lookup_default),
                    "compacted rules provide other rules than the original")
    S.check(list(again) == ['key'], "compaction changed the set of keys")


class Database(object):
    """A rules database whose sources hold the given rules dicts."""

    def __init__(self, S, rules_list, raise_on_error=True):
        import os
        import env
        from xylem.config import get_default_config
        from xylem.sources import RulesDatabase, SourcesContext
        from xylem.yaml_utils import dump_yaml
        base = env.scratch()
        sdir = os.path.join(base, 'sources.d')
        os.makedirs(sdir)
        urls = {}
        for i, r in enumerate(rules_list):
            url = 'http://host/%d.yaml' % i
            urls[url] = dump_yaml(r)
            with open(os.path.join(sdir, '%02d.yaml' % i), 'w') as f:
                f.write('- rules: ' + url + '\n')
        env.ST.url = lambda url, *a, **k: Response(urls[url])
        config = get_default_config()
        config.sources_dir = sdir
        config.cache_dir = os.path.join(base, 'cache')
        env.set_entry_points('xylem.specs', [
            ('rules', 'xylem.specs.plugins.rules:definition')])
        self.context = SourcesContext(config)
        self.db = RulesDatabase(self.context)
        self.config = config


class Response(object):
    """What urlopen returns."""

    status = code = 200
    reason = msg = 'OK'

    def __init__(self, text, headers=()):
        self._data = text.encode('utf-8')
        self.headers = HTTPMessage()
        for k, v in headers:
            self.headers[k] = v

    def read(self, amt=None):
        # all of it at once, as it may be for small pages
        data, self._data = self._data, b''
        return data

    def info(self):
        return self.headers

    def getcode(self):
        return 200

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def getheaders(self):
        return self.headers.items()

    def geturl(self):
        return 'http://host/x'

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


@harness('C05', bounds="two to three sources with one key, one OS, "
         "any_version and one version, two installers and the default "
         "installer; arbitrary query; arbitrary package names",
         quick=[{'n': 2, 'insts': ['apt', 'pip']},
                {'n': 3, 'insts': ['apt']}],
         thorough=[{'n': 2, 'insts': ['apt', 'pip'], 'any_os': True},
                   {'n': 3, 'insts': ['apt'], 'any_os': True}],
         covers=['first wins', 'filled in', 'empty', 'fresh', 'cached'])
def sources_are_combined_by_priority(S, n, insts, any_os=False):
    rules = [gen_rules(S, 's%d' % i, ['key'], ['ubuntu'],
                       ['any_version', 'v1'] if n == 2 else ['v1'], insts,
                       allow_default=(n == 2), any_os=any_os)
             for i in range(n)]
    for r in rules:
        for d in r.get('key', {}).get('ubuntu', {}).values():
            if 'apt' in d and 'default_installer' in d:
                S.reject()
    ver = S.pick('query version', ['v1', 'v2'])
    ic = make_ic('ubuntu', ver, 'apt')
    w = Database(S, rules)
    if S.bool('cached'):
        w.context.ensure_cache_dir()
        w.db.update()
        w = type(w.db)(w.context)
        w.load_from_cache()
        db = w
        S.cover('cached')
    else:
        db = w.db
        db.load_from_source()
        S.cover('fresh')
    got = db.lookup('key', ic)
    S.log('result', got)
    want = {}
    for r in rules:
        part = spec_lookup(r, 'key', 'ubuntu', ver, 'apt')
        for k, v in part.items():
            if k not in want:
                want[k] = v
            else:
                S.cover('first wins')
        if part and want != part:
            S.cover('filled in')
    S.check(got == want, "lookup does not prefer the first source providing "
            "a rule for an installer")
    if not got:
        S.cover('empty')
    S.check(db.lookup('other', ic) == {}, "unknown key has rules")
    # lookups for other versions and OSs must not affect each other
    other = 'v2' if ver == 'v1' else 'v1'
    for osn, v in (('ubuntu', other), ('debian', ver), ('ubuntu', ver)):
        want = {}
        for r in rules:
            for k, x in spec_lookup(r, 'key', osn, v, 'apt').items():
                if k not in want:
                    want[k] = x
        S.check(db.lookup('key', make_ic(osn, v, 'apt')) == want,
                "lookup after lookups for another version differs")


@harness('C05', bounds="one database of two sources, asked n times for the "
         "rules of a key or the list of keys on any of two OSs, versions and "
         "default installers; what was returned is changed in between",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['other default', 'other version', 'other os', 'keys',
                 'same'])
def lookups_do_not_affect_each_other(S, n):
    p = [S.name('p') for _ in range(4)]
    rules = [{'key': {'ubuntu': {
        'any_version': {'default_installer': {'packages': [p[0]]}},
        'v1': {'apt': {'packages': [p[1]]}}}}},
        {'key': {'any_os': {'any_version': {'pip': {'packages': [p[2]]}}},
                 'debian': {'v1': {'apt': {'packages': [p[3]]}}}},
         'more': {'ubuntu': {'v2': {'pip': {'packages': [p[3]]}}}}}]
    db = Database(S, rules).db
    db.load_from_source()
    last = None
    for i in range(n):
        osn = S.pick('os', ['ubuntu', 'debian'])
        ver = S.pick('version', ['v1', 'v2'])
        dflt = S.pick('default', ['apt', 'pip'])
        ic = make_ic(osn, ver, dflt)
        if last is not None:
            S.cover('same' if last == (osn, ver, dflt) else
                    'other os' if last[0] != osn else
                    'other version' if last[1] != ver else 'other default')
        last = osn, ver, dflt
        want = {}
        for key in ('key', 'more'):
            want[key] = {}
            for r in rules:
                for k, x in spec_lookup(r, key, osn, ver, dflt).items():
                    if k not in want[key]:
                        want[key][k] = x
        if S.bool('list keys'):
            got = db.keys(ic)
            S.cover('keys')
            S.check(sorted(got) == [k for k in ('key', 'more') if want[k]],
                    "keys listed are those of another OS")
            continue
        key = S.pick('key', ['key', 'more'])
        got = db.lookup(key, ic)
        S.log('got', got)
        S.check(got == want[key], "rules are those of another lookup")
        got['other'] = {'packages': ['x']}
        got.pop('apt', None)


@harness('C05', bounds="n sources with a rule for a key that names no, one or "
         "two arbitrary packages, with or without another entry, or nothing, "
         "for any OS or one, any version or one; loaded or cached",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['empty', 'nothing', 'packages', 'filled in'])
def rules_without_packages_count(S, n):
    rules = []
    want = {}
    for i in range(n):
        rule = {'packages': [S.name('p') for _ in range(
            S.count('packages', 0, 2))]}
        if S.bool('entry'):
            rule[S.pick('entry name', ['depends', 'x'])] = ['y']
        inst = S.pick('installer', ['apt', 'pip', None])
        v, w = S.pick('place', [('ubuntu', 'any_version'), ('ubuntu', 'v1'),
                                ('any_os', 'any_version')])
        r = {}
        if inst is not None:
            r['key'] = {v: {w: {inst: rule}}}
            S.cover('packages' if rule['packages'] else 'empty')
            if inst not in want:
                if want:
                    S.cover('filled in')
                want[inst] = rule
        else:
            S.cover('nothing')
        rules.append(r)
    w = Database(S, rules)
    db = w.db
    if S.bool('cached'):
        w.context.ensure_cache_dir()
        db.update()
        db = type(db)(w.context)
        db.load_from_cache()
    else:
        db.load_from_source()
    ic = make_ic('ubuntu', 'v1', 'apt')
    got = db.lookup('key', ic)
    S.log('got', got)
    S.check(got == want, "a rule that names no packages does not count")
    S.check(db.keys(ic) == (['key'] if want else []),
            "keys listed are not those with rules")


@harness('C06', bounds="two or three rules dicts with one key, two known and "
         "one unknown OS or any_os, any_version and two versions, two "
         "installers; query for every OS and version",
         quick=[{'n': 2, 'vers': ['any_version', 'v1'], 'insts': ['apt']},
                {'n': 2, 'vers': ['v1'], 'insts': ['apt', 'pip'],
                 'default': False},
                {'n': 3, 'vers': ['any_version', 'v1'], 'insts': [],
                 'any_os': False},
                {'n': 2, 'vers': ['any_version', 'v1'],
                 'insts': ['apt', 'pip'], 'default': False,
                 'any_os': False, 'known': 1}],
         thorough=[{'n': 2, 'vers': ['any_version', 'v1'],
                    'insts': ['apt', 'pip'], 'default': False},
                   {'n': 3, 'vers': ['any_version', 'v1'],
                    'insts': ['apt'], 'default': False},
                   {'n': 2, 'vers': ['any_version', 'v1', 'v2'],
                    'insts': ['apt']}],
         covers=['overridden', 'any_os over specific', 'combined',
                 'unknown os dropped'])
def merged_rules_answer_like_the_sources(S, n, vers, insts, default=True,
                                         any_os=True, known=0):
    from xylem.sources.rules_dict import merge_rules
    osn = 'ubuntu' if known else S.pick('os', ['ubuntu', 'haiku'])
    # an OS without default installer
    without = not default and not known and S.bool('no default installer')
    rules = [gen_rules(S, 's%d' % i, ['key'], [osn], vers, insts,
                       allow_default=default, any_os=any_os)
             for i in range(n)]
    for r in rules:
        for d in r.get('key', {}).get(osn, {}).values():
            if 'apt' in d and 'default_installer' in d:
                S.reject()
    before = clone(rules)
    defaults = {'ubuntu': None if without else 'apt', 'debian': 'dpkg'}
    merged = merge_rules(rules, defaults)
    S.log('merged', merged)
    S.check(rules == before, "merging changes the merged rules")
    for q in ('ubuntu', 'debian'):
        for v in ('v1', 'v2'):
            want = {}
            for r in before:
                part = spec_lookup(r, 'key', q, v, defaults[q])
                for k, x in part.items():
                    if k not in want:
                        want[k] = x
                    else:
                        S.cover('overridden')
                if part and want and want != part:
                    S.cover('combined')
            got = spec_lookup(merged, 'key', q, v, '?')
            S.check(got == want, "merged rules differ from preferring the "
                    "first rules dict for every installer")
    if any_os and 'any_os' in before[0].get('key', {}) and \
            'ubuntu' in before[1].get('key', {}):
        S.cover('any_os over specific')
    for od in merged.values():
        S.check('haiku' not in od, "merged rules contain an unknown OS")
        for vd in od.values():
            for d in vd.values():
                S.check('default_installer' not in d,
                        "default installer not replaced in merged rules")
    if osn == 'haiku':
        S.cover('unknown os dropped')


@harness('C10', bounds="two sources with two keys, any_os, one OS, "
         "any_version and one version, with or without rules in them; "
         "arbitrary query, after one for another OS or before loading, or "
         "not",
         quick=[{'n': 1, 'keys': ['a', 'b']}, {'n': 2, 'keys': ['a']},
                {'n': 1, 'keys': ['a'], 'empty': 1}],
         thorough=[{'n': 2, 'keys': ['a', 'b']},
                   {'n': 2, 'keys': ['a'], 'empty': 1}],
         covers=['listed', 'not listed', 'any_os', 'other os'])
def listed_keys_have_rules(S, n, keys, empty=0):
    rules = [gen_rules(S, 's%d' % i, keys, ['ubuntu'],
                       ['any_version', 'v1'], ['apt'], allow_default=False,
                       nonempty=not empty)
             for i in range(n)]
    osn = S.pick('query os', ['ubuntu', 'debian'])
    ver = S.pick('query version', ['v1', 'v2'])
    ic = make_ic(osn, ver, 'apt')
    db = Database(S, rules).db
    db.load_from_source()
    earlier = S.pick('earlier', ['nothing', 'other os', 'changed answer'])
    if earlier == 'other os':
        db.keys(make_ic('debian' if osn == 'ubuntu' else 'ubuntu', 'v1',
                        'apt'))
    elif earlier == 'changed answer':
        db.keys(ic).append('c')
        db.keys(ic)[:] = []
    got = db.keys(ic)
    S.log('keys', sorted(got))
    S.check(len(set(got)) == len(got), "a key is listed twice")
    for k in ['a', 'b', 'c']:
        has = bool(db.lookup(k, ic))
        S.check(has == (k in got), "the listed keys are not those with "
                "rules for the current OS")
        S.cover('listed' if has else 'not listed')
        if has and osn == 'debian':
            S.cover('any_os')
    if osn == 'debian' and any('ubuntu' in d for r in rules
                               for d in r.values()):
        S.cover('other os')


@harness('C10', bounds="up to n sources, each with rules for any of three keys "
         "for the current OS, those of one source for any or another OS or "
         "not; the keys of the sources "
         "overlapping or not, one of the sources empty or not",
         quick=[{'n': 3}], thorough=[{'n': 4}],
         covers=['overlapping', 'disjoint', 'empty source', 'other os only'])
def keys_of_several_sources(S, n):
    names = ['a', 'b', 'c']
    rules, want = [], set()
    total = 0
    n = S.count('n', 2, n)
    special = S.pick('special', [None] + [
        (i, x) for i in range(n) for x in ('any_os', 'debian')])
    for i in range(n):
        sub = S.subset('keys%d' % i, names)
        osn = special[1] if special and special[0] == i else 'ubuntu'
        r = {}
        for k in sub:
            vd = {'any_version': {'apt': {'packages': [k]}}}
            r[k] = {osn: vd}
        rules.append(r)
        if not sub:
            S.cover('empty source')
        if osn != 'debian':
            want |= set(sub)
            total += len(sub)
        else:
            S.cover('other os only')
    S.cover('overlapping' if total > len(want) else 'disjoint')
    ic = make_ic('ubuntu', 'v1', 'apt')
    db = Database(S, rules).db
    db.load_from_source()
    got = list(db.keys(ic))
    S.log('keys', sorted(got))
    S.check(sorted(got) == sorted(want), "the listed keys are not those with "
            "rules for the current OS, each once")
