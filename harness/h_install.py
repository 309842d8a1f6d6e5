"""Resolving and installing keys."""

import env
from symx.hapi import harness
from lib import attempt, distinct, not_one_of, clone, make_ic
from lib import fake_installer, KEYWORDS
from h_merge import Database


def one_key_rules(key, insts):
    """Rules for one key: dict installer -> rule."""
    return {key: {'any_os': {'any_version': insts}}}


def loaded(S, rules):
    db = Database(S, [rules]).db
    db.load_from_source()
    return db


# -- choice of the installer -----------------------------------------------------

@harness('C28', bounds="one key with rules for any subset of two core, two "
         "other and one unknown installer, core installers in any order, "
         "additional installers enabled or not, with and without "
         "install-from settings for the key (one, or two of different "
         "installers) or another key; rules with or without package; "
         "one of the rules invalid or none",
         quick=[{}, {'invalid': 1}, {'empty': 1}],
         covers=['invalid', 'empty', 'core', 'additional', 'explicit',
                 'explicit unknown',
                 'explicit without rule', 'explicit twice', 'no rule',
                 'no installer', 'disabled'])
def installer_of_a_key(S, invalid=0, empty=0):
    from xylem.config import get_default_config
    from xylem.installers import InstallerError
    from xylem.resolve import resolve
    core = S.pick('core', [[], ['a', 'b'], ['b', 'a'], ['a']][:4 - (invalid or empty)])
    extra = S.subset('additional', ['c', 'd'])
    have = [x for x in ['b', 'a', 'd', 'c', 'nope']
            if S.bool('rule for ' + x)]
    pkgs = {x: S.name('package of ' + x) for x in have}
    few = invalid or empty
    if empty:
        empty = S.pick('empty rule', ['b', 'a', 'd', 'c'])
        S.assume(empty in have)
        S.cover('empty')
    invalid = S.pick('invalid', ['a', 'c']) if invalid else None
    if invalid:
        pkgs[invalid] = 'bad'

    def rule_error(rule):
        if rule['packages'] == ['bad']:
            raise InstallerError('bad rule')
    for x in have:
        if x != invalid:
            S.assume(pkgs[x] != 'bad')
    rules = one_key_rules('key', {
        x: {'packages': [] if x == empty else [pkgs[x]]} for x in have})
    config = get_default_config()
    use = S.bool('use additional')
    config.use_additional_installers = use
    wanted = S.pick('install from', [None, 'a', 'c', 'other', 'nope',
                                     'unused', 'a before c',
                                     'c before a'][:3 if few else None])
    if wanted == 'other':
        config.install_from = {'a': ['other key']}
    elif wanted == 'unused':
        config.install_from = {'a': None, 'b': []}
    elif wanted in ('a before c', 'c before a'):
        # the first one counts, the other is ignored
        first, second = wanted.split(' before ')
        config.install_from = {first: ['y', 'key'], 'b': None,
                               second: ['key']}
        wanted = first
        S.cover('explicit twice')
    elif wanted is not None:
        config.install_from = {'b': ['x'], wanted: ['y', 'key']}
    ic = make_ic('ubuntu', 'v', 'a', core, [
        fake_installer(x, additional=x in extra, rule_error=rule_error)
        for x in ('a', 'b', 'c', 'd')], config)
    db = loaded(S, rules)
    res, errors = resolve(['key'], config=config, database=db,
                          installer_context=ic)
    S.log('result', [res, len(errors)])
    S.check(len(res) + len(errors) == 1, "key not accounted for exactly once")
    if wanted in ('a', 'c', 'nope'):
        allowed = [wanted] if wanted in have and wanted != 'nope' else []
        S.cover('explicit' if allowed else 'explicit unknown'
                if wanted == 'nope' else 'explicit without rule')
    else:
        allowed = [x for x in core if x in have][:1]
        if allowed:
            S.cover('core')
        elif use:
            allowed = [x for x in extra if x in have]
            if allowed:
                S.cover('additional')
        else:
            S.cover('disabled')
        if not have:
            S.cover('no rule')
        elif not allowed:
            S.cover('no installer')
    if invalid in allowed:
        # no other installer takes the place of the chosen one; without
        # core installers any of the additional ones may be chosen
        S.cover('invalid')
        if len(allowed) > 1 and res:
            allowed = [x for x in allowed if x != invalid]
        else:
            allowed = []
    if not allowed:
        S.check(len(errors) == 1 and errors[0][0] == 'key',
                "a key without usable rule is not reported as error")
        return
    S.check(len(res) == 1, "a key with usable rule is reported as error")
    key, (inst, resolutions) = res[0]
    S.check(key == 'key' and inst in allowed,
            "key resolved with the wrong installer")
    S.check([r.package for r in resolutions] ==
            ([] if inst == empty else [pkgs[inst]]),
            "key resolved to the package of another installer")


@harness('C28', bounds="up to n requested keys, repeated or not, among two "
         "fine keys, one of an additional installer, an unknown key, one "
         "with rules for an unknown or unused installer only and a key with "
         "an invalid rule; with and "
         "without all keys of the database requested",
         quick=[{'n': 3}], thorough=[{'n': 4}],
         covers=['repeated', 'all', 'error', 'fine'])
def every_requested_key_is_accounted_for(S, n):
    from xylem.config import get_default_config
    from xylem.installers import InstallerError
    from xylem.resolve import resolve
    rules = {}
    p = S.name('p')
    q = S.name('q')
    for k, pkgs in (('good1', [p]), ('good0', [q, p]), ('bad', ['bad'])):
        rules.update(one_key_rules(k, {'a': {'packages': pkgs}}))
    rules.update(one_key_rules('good2', {'b': {'packages': [q]}}))
    # installers that are not used or do not exist
    rules.update(one_key_rules('nobody', {'c': {'packages': [p]},
                                          'x': {'packages': [p]}}))

    def rule_error(rule):
        if rule['packages'] == ['bad']:
            raise InstallerError('bad rule')
    S.assume(p != 'bad')
    S.assume(q != 'bad')
    config = get_default_config()
    ic = make_ic('ubuntu', 'v', 'a', ['a'],
                 [fake_installer('a', rule_error=rule_error),
                  fake_installer('b', additional=True),
                  fake_installer('c')], config)
    db = loaded(S, rules)
    asked = [S.pick('key', ['good1', 'good0', 'good2', 'nobody', 'bad',
                            'unknown'])
             for _ in range(S.count('n', 1, n))]
    before = list(asked)
    everything = S.bool('all')
    res, errors = resolve(asked, all_keys=everything, config=config,
                          database=db, installer_context=ic)
    S.log('result', [[k for k, _ in res], [k for k, _ in errors]])
    S.check(asked == before, "the list of requested keys is modified")
    want = []
    for k in before + (['bad', 'good0', 'good1', 'good2', 'nobody']
                       if everything else []):
        if k not in want:
            want.append(k)
        elif k in before:
            S.cover('repeated')
    if everything:
        S.cover('all')
    S.check([k for k, _ in res] == [k for k in want if k.startswith('good')],
            "resolved keys are not the requested keys in their order")
    S.check([k for k, _ in errors] == [k for k in want
                                       if not k.startswith('good')],
            "errors are not those of the requested keys in their order")
    for k, (inst, rs) in res:
        S.check(inst == ('b' if k == 'good2' else 'a') and
                [r.package for r in rs] ==
                {'good1': [p], 'good0': [q, p], 'good2': [q]}[k],
                "key resolved to other packages than its rule names")
        S.cover('fine')
    if errors:
        S.cover('error')


# -- executing commands ------------------------------------------------------------

class Job(object):
    """Installation of keys with fake installers a (core) and b."""

    def __init__(self, S, n, config=None, commands='fine', filters='fine',
                 detects='fine', general=None, prereq=None, kinds=None, codes=(-1, 1)):
        from xylem.config import get_default_config
        from xylem.installers import InstallerError
        self.S = S
        self.log = []
        self.n = n
        self.code_range = codes
        self.kinds = []
        self.packages = []       # [(package, installer)] in key order
        rules = {}
        names = [S.name('package') for _ in range(n)]
        distinct(S, names)
        for i in range(n):
            kind = S.pick('key', kinds or ['a', 'b', 'both', 'no rule'])
            self.kinds.append(kind)
            if kind == 'no rule':
                rules.update(one_key_rules('k%d' % i, {'x': {'packages': [
                    names[i]]}}))
                continue
            inst = 'a' if kind == 'both' else kind
            rules.update(one_key_rules('k%d' % i, {
                x: {'packages': [names[i]]}
                for x in (['a', 'b'] if kind == 'both' else [kind])}))
            self.packages.append((names[i], inst))
        self.keys = ['k%d' % i for i in range(n)]
        self.before = {}
        self.after = {}
        self.codes = []
        self.run = []
        self.fault = {'commands': commands, 'filter': filters,
                      'detect': detects}
        self.error = InstallerError
        config = config or get_default_config()
        self.config = config

        def commands_of(pkgs):
            self.raise_fault('commands')
            return [['a' if self.installer(p) == 'a' else 'b', 'install', p]
                    for p in pkgs]
        insts = [fake_installer(x, self.log, additional=x == 'b',
                                uninstalled=self.is_uninstalled,
                                commands=commands_of, general=general,
                                prereq=prereq)
                 for x in ('a', 'b')]
        self.ic = make_ic('ubuntu', 'v', 'a', ['a'], insts, config)
        self.db = loaded(S, rules)
        env.ST.process = self.process

    def raise_fault(self, where):
        f = self.fault[where]
        if f == 'error':
            raise self.error(where)
        if f == 'unexpected':
            raise ValueError(where)

    def installer(self, p):
        for q, i in self.packages:
            if q == p:
                return i

    def is_uninstalled(self, p):
        tried = [x for x in self.run if x == p]
        self.raise_fault('detect' if self.run else 'filter')
        memo = self.after if tried else self.before
        for q in memo:
            if q == p:
                return not memo[q]
        memo[p] = self.S.bool('after' if tried else 'before')
        return not memo[p]

    def process(self, cmd):
        code = self.S.int('exit code', *self.code_range)
        self.codes.append((cmd[-1], code))
        self.run.append(cmd[-1])
        self.log.append(('run', cmd))
        return code, '', ''

    def install(self, **kw):
        from xylem.install import install
        return install(self.keys, config=self.config, database=self.db,
                       installer_context=self.ic, **kw)


@harness('C35', bounds="up to n keys with rules for a core installer, an "
         "additional one, or none usable; arbitrary distinct package "
         "names; every package installed or not before and after; every "
         "command's exit code in the given range; reinstalling or not; "
         "continuing on errors or not",
         quick=[{'n': 2, 'codes': [-1, 1]}, {'n': 1, 'codes': [-9, 128]},
                {'n': 3, 'codes': [0, 1], 'kinds': ['a', 'b']}],
         thorough=[{'n': 3, 'codes': [-1, 1]}, {'n': 2, 'codes': [-2, 3]},
                   {'n': 1, 'codes': [-9, 128]}],
         covers=['nothing to do', 'reinstall', 'resolve error', 'failed',
                 'undetected', 'success', 'continued', 'stopped'])
def packages_are_installed_in_order(S, n, codes, kinds=None):
    w = Job(S, n, kinds=kinds or ['a', 'b', 'no rule'], codes=codes)
    coe = S.bool('continue on error')
    re = S.bool('reinstall')
    inter = S.bool('interactive')
    resolve_errors, errors = w.install(continue_on_error=coe, reinstall=re,
                                       interactive=inter)
    S.log('result', [[k for k, _ in resolve_errors], len(errors), w.run])
    bad = ['k%d' % i for i in range(n) if w.kinds[i] == 'no rule']
    S.check([k for k, _ in resolve_errors] == bad,
            "unresolved keys are not reported")
    if bad:
        S.cover('resolve error')
    if bad and not coe:
        S.check(w.run == [] and errors == [],
                "packages are installed although a key is unresolved")
        return
    todo = [p for p, _ in w.packages if re or not w.before[p]]
    if w.packages and not todo:
        S.cover('nothing to do')
    if re and todo:
        S.cover('reinstall')
    for p in w.run:
        S.check(p in todo, "an installed package is installed again")
    S.check(len(w.run) <= len(todo) and w.run == todo[:len(w.run)],
            "packages are not installed in the order of the keys, or twice")
    fails = 0
    undetected = 0
    stopped = False
    # groups of subsequent packages of one installer
    i = 0
    while i < len(todo) and not stopped:
        j = i
        inst = w.installer(todo[i])
        while j < len(todo) and w.installer(todo[j]) == inst:
            j += 1
        ran = 0
        for k in range(i, j):
            S.check(k < len(w.run), "a package is not installed")
            ran = k
            if w.codes[k][1] != 0:
                fails += 1
                S.cover('failed')
                if not coe:
                    stopped = True
                    break
        if not stopped:
            for k in range(i, j):
                if not w.after[todo[k]]:
                    undetected += 1
                    S.cover('undetected')
            if undetected and not coe:
                stopped = True
            i = j
        if stopped:
            S.check(len(w.run) == ran + 1,
                    "installing continues after a failure")
            S.cover('stopped')
    if not stopped:
        S.check(w.run == todo, "a package is not installed")
        if fails or undetected:
            S.cover('continued')
    S.check(len(errors) == fails + undetected,
            "failures are not reported exactly once")
    if w.run and not errors:
        S.cover('success')
    for kind, c in env.ST.commands:
        S.check(isinstance(c, list), "command not passed as list")
    for e in w.log:
        if e[0] == 'commands':
            S.check(e[3] == inter and e[4] == re, "interactive or reinstall "
                    "not passed to the installer")


@harness('C35', bounds="up to n keys with rules for two installers; every "
         "command succeeds, fails, cannot be found or may not be executed; "
         "every package installed or not before; continuing on errors or "
         "not", quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['not executed', 'failed', 'executed', 'continued',
                 'stopped'])
def commands_that_cannot_be_executed(S, n):
    w = Job(S, n, kinds=['a', 'b'])
    tried = []

    def process(cmd):
        how = S.pick('how', ['fine', 'fails', 'not found', 'not allowed'])
        tried.append((cmd[-1], how))
        if how == 'not found':
            raise FileNotFoundError(2, 'No such file or directory', cmd[0])
        if how == 'not allowed':
            raise PermissionError(13, 'Permission denied', cmd[0])
        w.run.append(cmd[-1])
        if how == 'fails':
            return 3, '', ''
        w.after[cmd[-1]] = True
        return 0, '', ''
    env.ST.process = process
    coe = S.bool('continue on error')
    how, r = attempt(w.install, continue_on_error=coe)
    S.log('outcome', [how, tried])
    S.check(how == 'ok', "a command that cannot be executed is no reported "
            "failure")
    resolve_errors, errors = r
    todo = [p for p, _ in w.packages if not w.before[p]]
    bad = [p for p, x in tried if x != 'fine']
    for p, x in tried:
        S.cover('executed' if x == 'fine' else
                'failed' if x == 'fails' else 'not executed')
    S.check(resolve_errors == [], "resolution failure without any")
    if bad and not coe:
        S.cover('stopped')
        S.check([p for p, _ in tried] == todo[:len(tried)] and
                bad == [tried[-1][0]], "installing continues after a failure")
        S.check(len(errors) == 1, "failure is not reported once")
        return
    S.check([p for p, _ in tried] == todo, "not the missing packages are "
            "installed in the order of the keys")
    missing = [p for p, x in tried if x.startswith('not') or x == 'fails' and
               not w.after[p]]
    if bad:
        S.cover('continued')
    S.check(len(errors) == len(bad) + len(missing),
            "failures are not reported exactly once")


@harness('C35', bounds="n keys of two installers whose commands do not name "
         "the packages; every command with exit code 0, 1 or 2; every "
         "package installed afterwards or not; continuing on errors",
         quick=[{'n': 3}], thorough=[{'n': 4}],
         covers=['same failures', 'fine', 'undetected'])
def failures_that_look_the_same(S, n):
    from xylem.config import get_default_config
    from xylem.install import install
    kinds = [S.pick('installer', ['a', 'b']) for _ in range(n)]
    rules = {}
    for i in range(n):
        rules.update(one_key_rules('k%d' % i, {kinds[i]: {
            'packages': ['p%d' % i]}}))
    codes = []
    present = []

    def process(cmd):
        codes.append(S.pick('exit code', [0, 1, 2]))
        return codes[-1], '', ''
    env.ST.process = process

    def uninstalled(p):
        if len(codes) == 0:
            return True
        if p not in [x for x, _ in present]:
            present.append((p, codes[int(p[1])] == 0 and
                            not S.bool('detected afterwards')))
        return dict(present)[p]
    config = get_default_config()
    ic = make_ic('ubuntu', 'v', 'a', ['a'], [
        fake_installer(x, additional=x == 'b', uninstalled=uninstalled,
                       commands=lambda pkgs: [['tool', 'install']
                                              for _ in pkgs])
        for x in ('a', 'b')], config)
    db = loaded(S, rules)
    # the installed packages are unknown before anything is installed
    how, r = attempt(install, ['k%d' % i for i in range(n)], config=config,
                     database=db, installer_context=ic, reinstall=True,
                     continue_on_error=True)
    S.log('result', [how, len(codes)])
    S.check(how == 'ok' and r[0] == [], "installing fails")
    S.check(len(codes) == n, "not every package is installed")
    fails = len([c for c in codes if c])
    late = len([p for p, x in present if x])
    if len([c for c in codes if c == 1]) > 1:
        S.cover('same failures')
    if late:
        S.cover('undetected')
    elif not fails:
        S.cover('fine')
    S.check(len(r[1]) == fails + late,
            "every failure is reported, however much they look the same")


@harness('C35', bounds="two keys of one or two installers that resolve a "
         "rule once and keep the list of items and of installed packages; "
         "up to n installations one after the other of any of the keys",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['again', 'both', 'one'])
def installing_again(S, n):
    from xylem.config import get_default_config
    from xylem.install import install
    names = [S.name('package'), S.name('package')]
    distinct(S, names)
    kinds = [S.pick('installer', ['a', 'b']) for _ in range(2)]
    rules = {}
    for i in range(2):
        rules.update(one_key_rules('k%d' % i, {kinds[i]: {
            'packages': [names[i]]}}))
    kept = []

    def keeping(name):
        C = fake_installer(name, additional=name == 'b')

        class Keeping(C):
            def resolve(self, rule):
                for n, p, r in kept:
                    if n == name and p == rule['packages'][0]:
                        return r
                r = super(Keeping, self).resolve(rule)
                kept.append((name, rule['packages'][0], r))
                return r

            def filter_uninstalled(self, resolved):
                return [] if env.ST.commands[before:] else resolved
        return Keeping
    before = 0
    config = get_default_config()
    ic = make_ic('ubuntu', 'v', 'a', ['a'], [keeping('a'), keeping('b')],
                 config)
    db = loaded(S, rules)
    env.ST.process = lambda cmd: (0, '', '')
    for i in range(n):
        which = S.pick('keys', [[0], [1], [0, 1], [1, 0]])
        before = len(env.ST.commands)
        re = S.bool('reinstall')
        got = install(['k%d' % j for j in which], config=config, database=db,
                      installer_context=ic, reinstall=re,
                      continue_on_error=True)
        S.check(got == ([], []), "installing fails")
        S.check([c[-1] for _, c in env.ST.commands[before:]] ==
                [names[j] for j in which], "the packages are not those of "
                "the requested keys in their order, each of them once")
        S.cover('both' if len(which) == 2 else 'one')
        if i:
            S.cover('again')
    for _, p, r in kept:
        S.check([x.package for x in r] == [p], "the items an installer "
                "returned are modified")


@harness('C35', bounds="two keys of up to two installers; any installer "
         "failing, expectedly or unexpectedly, while determining installed "
         "packages before or after, or while composing commands; continuing "
         "on errors or not",
         covers=['reported', 'raised', 'stopped', 'continued'])
def failing_installers_are_reported(S):
    from xylem.exception import XylemInternalError
    where = S.pick('where', ['commands', 'filters', 'detects'])
    kind = S.pick('kind', ['error', 'unexpected'])
    w = Job(S, 2, kinds=['a', 'b'], **{where: kind})
    coe = S.bool('continue on error')
    re = S.bool('reinstall') if where == 'filters' else True
    how, r = attempt(w.install, continue_on_error=coe, reinstall=re)
    S.log('result', [how, w.run])
    if where == 'filters' and re:
        S.check(how == 'ok', "reinstalling depends on what is installed")
        return
    if kind == 'unexpected' and (where != 'detects' or
                                 all(c[1] == 0 for c in w.codes)):
        S.check(how == 'exc' and isinstance(r, XylemInternalError),
                "unexpected errors of an installer are not raised")
        S.cover('raised')
        return
    if kind == 'unexpected':
        return
    S.check(how == 'ok' and r[0] == [] and len(r[1]) > 0,
            "errors of an installer are not reported")
    S.cover('reported')
    if where == 'commands':
        S.check(w.run == [], "something is executed for an installer that "
                "fails to say what to execute")
    if where == 'filters' and coe:
        S.check(w.run == [p for p, _ in w.packages], "packages of which it "
                "is unknown whether they are installed are not installed")
    if not coe:
        if where == 'filters':
            S.check(w.run == [], "installing although an error occurred")
        else:
            S.check(len(set(w.installer(p) for p in w.run)) <= 1,
                    "installing continues with another installer after an "
                    "error")
        S.cover('stopped')
    elif where == 'detects':
        S.check(w.run == [p for p, _ in w.packages],
                "errors keep other packages from being installed")
        S.cover('continued')


@harness('C36', bounds="up to n keys of up to two installers, arbitrary "
         "packages, installed or not; reinstalling, continuing on errors, "
         "fixing prerequisites or not; installers whose prerequisites are "
         "not satisfied",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['would install', 'unresolved', 'would fix'])
def dry_run_executes_nothing(S, n):
    fixes = []

    def prereq(fix):
        if fix is True:
            fixes.append(fix)
        if fix:
            S.cover('would fix')
    w = Job(S, n, general=prereq, prereq=prereq)
    ops = []
    env.ST.fs_hook = lambda op, path: ops.append(op)
    resolve_errors, errors = w.install(
        simulate=True, continue_on_error=S.bool('continue on error'),
        reinstall=S.bool('reinstall'), fix_prerequisites=S.bool('fix'),
        interactive=S.bool('interactive'))
    env.ST.fs_hook = None
    S.log('result', [len(resolve_errors), len(errors)])
    S.check(env.ST.commands == [], "dry run executes a command")
    S.check(fixes == [], "dry run fixes prerequisites")
    S.check(ops == [], "dry run changes files")
    S.check(errors == [], "dry run reports installation errors")
    bad = ['k%d' % i for i in range(n) if w.kinds[i] == 'no rule']
    S.check([k for k, _ in resolve_errors] == bad,
            "dry run does not report unresolved keys")
    if bad:
        S.cover('unresolved')
    if any(e[0] == 'commands' for e in w.log):
        S.cover('would install')


@harness('C36', bounds="up to n keys of up to two installers, either of which "
         "may not be able to compose its commands; continuing on errors or "
         "not, reinstalling or not",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['error', 'continued', 'fine'])
def dry_run_with_errors(S, n):
    w = Job(S, n, kinds=['a', 'b'])
    broken = S.subset('broken', ['a', 'b'])
    for x in w.ic.installers:
        if x.name in broken:
            def fail(*a, **k):
                raise w.error('no commands')
            x.get_install_commands_no_root = fail
    ops = []
    env.ST.fs_hook = lambda op, path: ops.append(op)
    coe = S.bool('continue on error')
    re = S.bool('reinstall')
    _, errors = w.install(simulate=True, continue_on_error=coe, reinstall=re)
    env.ST.fs_hook = None
    S.log('result', [len(errors)])
    S.check(env.ST.commands == [] and w.run == [],
            "dry run executes a command")
    S.check(ops == [], "dry run changes files")
    # installers of subsequent packages to be installed
    groups = []
    for p, i in w.packages:
        if (re or not w.before[p]) and (not groups or groups[-1] != i):
            groups.append(i)
    fail = [i for i in groups if i in broken]
    S.check(len(errors) == (len(fail) if coe else min(1, len(fail))),
            "dry run hides that commands cannot be composed")
    S.cover('fine' if not fail else 'continued' if coe else 'error')


@harness('C36', bounds="a dry run with a package manager that is installed "
         "or not, up to date, outdated or of unknown age, or that refuses; "
         "any combination of the other options",
         covers=['refused', 'would install', 'installed before'])
def dry_run_with_package_manager(S):
    from xylem.config import get_default_config
    from xylem.install import install
    from xylem.installers.impl import InstallerPrerequisiteError
    from xylem.installers.package_manager_installer import \
        PackageManagerInstaller
    there = S.bool('installed')
    age = S.pick('age', ['current', 'old', 'unknown'])
    done = S.bool('package installed')
    calls = []

    class Manager(PackageManagerInstaller):

        @property
        def name(self):
            return 'pm'

        def __init__(self):
            super(Manager, self).__init__('pm-tool')

        def use_as_additional_installer(self, os_tuple):
            return False

        def is_package_manager_installed(self):
            return there

        def get_install_commands_no_root(self, resolved, interactive=True,
                                         reinstall=False):
            return [['pm-tool', 'install', r.package] for r in resolved]

        def filter_uninstalled(self, resolved):
            return [] if done else list(resolved)

        def install_package_manager(self, os_tuple, interactive=True):
            calls.append('install')

        def is_package_manager_updated(self):
            if age == 'unknown':
                raise NotImplementedError()
            return age == 'current'

        def update_package_manager(self, interactive=True):
            calls.append('update')
    config = get_default_config()
    ic = make_ic('ubuntu', 'v', 'pm', ['pm'], [Manager], config)
    db = loaded(S, one_key_rules('key', {'pm': {'packages': [S.name('p')]}}))
    ops = []
    env.ST.fs_hook = lambda op, path: ops.append(op)
    fix = S.bool('fix')
    how, r = attempt(install, ['key'], simulate=True, fix_prerequisites=fix,
                     interactive=S.bool('interactive'),
                     reinstall=S.bool('reinstall'),
                     continue_on_error=S.bool('continue on error'),
                     config=config, database=db, installer_context=ic)
    env.ST.fs_hook = None
    S.log('result', [how, ops])
    S.check(ops == [] and env.ST.commands == [],
            "dry run changes files or executes commands")
    S.check(calls == [], "dry run fixes prerequisites")
    if how == 'exc':
        S.check(isinstance(r, InstallerPrerequisiteError) and
                not there and not fix, "dry run refused without reason")
        S.cover('refused')
    else:
        S.check(r == ([], []), "dry run reports errors")
        S.cover('installed before' if done else 'would install')


@harness('C36', bounds="a dry run with the fake installer whose install "
         "directory exists or not, one or two packages with arbitrary "
         "names, fixing prerequisites or not",
         covers=['missing directory', 'existing', 'refused'])
def dry_run_with_fake_installer(S):
    import os
    from xylem.config import get_default_config
    from xylem.install import install
    from xylem.installers import InstallerContext
    from lib import fake_os, OSHolder
    base = env.scratch()
    d = os.path.join(base, 'fake')
    exists = S.bool('directory exists')
    if exists:
        os.makedirs(d)
    env.set_entry_points('xylem.installers', [
        ('fake', 'xylem.installers.plugins.fake:definition')])
    config = get_default_config()
    config.installer_options = {'fake': {'install_dir': d}}
    config.core_installers = ['fake']
    ic = InstallerContext(config=config,
                          os_support=OSHolder(fake_os('ubuntu', 'v')()))
    db = loaded(S, one_key_rules('key', {'fake': {'packages': [
        S.name('p') for _ in range(S.count('n', 1, 2))]}}))
    ops = []
    env.ST.fs_hook = lambda op, path: ops.append(op)
    fix = S.bool('fix')
    how, r = attempt(install, ['key'], simulate=True, fix_prerequisites=fix,
                     interactive=S.bool('interactive'),
                     reinstall=S.bool('reinstall'),
                     config=config, database=db, installer_context=ic)
    env.ST.fs_hook = None
    S.log('result', [how, ops])
    S.check(ops == [] and env.ST.commands == [],
            "dry run changes files or executes commands")
    if how == 'exc':
        S.check(not exists and not fix, "dry run refused without reason")
        S.cover('refused')
    else:
        S.check(r == ([], []), "dry run reports errors")
        S.cover('existing' if exists else 'missing directory')
