"""Installers: selection, plugins, options, resolutions, prerequisites."""

import os
import env
from symx.hapi import harness
from lib import attempt, distinct, not_one_of, clone, make_ic
from lib import fake_installer, fake_os, OSHolder, plugin, KEYWORDS


# -- selection -----------------------------------------------------------------

@harness('C27', bounds="four installer plugins, core installers from the "
         "user's config or the OS in any order of up to n including an "
         "unknown one (like another but for case), additional installers "
         "in general or for this OS only, enabled or not",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['config', 'os', 'unknown', 'additional', 'disabled',
                 'core and additional', 'empty config'])
def core_and_additional_installers(S, n):
    from xylem.config import get_default_config
    names = ['a', 'b', 'c']

    def some(tag):
        return [S.pick(tag, names + ['A'])
                for _ in range(S.count(tag + '.n', 0, n))]
    os_core = some('os')
    extra = S.subset('additional', names)
    config = get_default_config()
    if S.bool('from config'):
        config.core_installers = some('config')
        core = config.core_installers
        S.cover('config')
        if not core:
            S.cover('empty config')
    else:
        core = os_core
        S.cover('os')
    if len(set(core)) != len(core):
        S.reject()
    config.use_additional_installers = S.bool('use additional')
    asked = []

    def make(x):
        C = fake_installer(x)

        class Inst(C):
            def use_as_additional_installer(self, os_tuple):
                asked.append(os_tuple)
                return x in extra
        return Inst
    os_core_before = list(os_core)
    core_before = list(core)
    ic = make_ic('ubuntu', 'v', 'a', os_core, [make(x) for x in names],
                 config, parents=['debian', 'linux'])
    got = [i.name for i in ic.core_installers]
    add = [i.name for i in ic.additional_installers]
    S.log('installers', [got, add])
    S.check(got == [x for x in core if x in names],
            "core installers are not the available ones of the configured or "
            "else the OS's core installers in their order")
    S.check(os_core == os_core_before and core == core_before,
            "configured core installers are modified")
    if 'A' in core:
        S.cover('unknown')
    want = [x for x in names if x in extra and x not in core]
    if not config.use_additional_installers:
        want = []
        S.cover('disabled')
    S.check(sorted(add) == want and len(set(add)) == len(add),
            "additional installers are not those declaring themselves "
            "additional that are no core installers")
    if want:
        S.cover('additional')
    if [x for x in extra if x in core]:
        S.cover('core and additional')
    S.check([i.name for i in ic.installers] == got + add,
            "list of all installers is not the core and the additional ones")
    for t in asked:
        S.check(t == ('ubuntu', 'v'), "asked for another OS")
    for x in names + ['nope', 'A']:
        inst = ic.lookup_installer(x)
        S.check((inst is None) == (x not in names),
                "installer cannot be found by its name")
        if inst is not None:
            S.check(inst.name == x, "wrong installer found by name")


@harness('C27', bounds="an OS whose core installers depend on its version "
         "and on one of two options, set to arbitrary values or by default, "
         "detected or overridden with any of two versions",
         covers=['default', 'set', 'overridden', 'detected'])
def core_installers_of_version_and_options(S):
    from xylem.config import get_default_config
    from xylem.config_utils import String
    from xylem.installers import InstallerContext
    from xylem.os_support import OSSupport
    asked = []
    Base = fake_os('ubuntu', 'v1', 'a', known=['v1', 'v2'])

    class Optional(Base):

        def __init__(self):
            super(Optional, self).__init__()
            self.options_description.add('flavour', type=String, default='c')

        def get_core_installers(self, version, options):
            asked.append((version, options))
            return [options.flavour, 'b' if version == 'v2' else 'a'] + \
                list(options.features)
    env.set_entry_points('xylem.os', [('u', plugin('os', Optional, 'u'))])
    env.set_entry_points('xylem.installers', [
        (x, plugin('installer', fake_installer(x), x)) for x in 'abcd'])
    support = OSSupport()
    version = 'v1'
    if S.bool('override'):
        version = S.pick('version', ['v1', 'v2'])
        support.override_os(('ubuntu', version))
        S.cover('overridden')
    else:
        support.detect_os()
        S.cover('detected')
    options = {}
    flavour, features = 'c', []
    if S.bool('flavour'):
        flavour = options['flavour'] = S.name('flavour', domain=['d', 'nope'])
    if S.bool('features'):
        features = options['features'] = [S.name('feature',
                                                 domain=['d', 'nope'])]
    S.assume(features != [flavour])
    if options or S.bool('empty'):
        support.current_os.options = options
    S.cover('set' if options else 'default')
    ic = InstallerContext(config=get_default_config(), os_support=support)
    want = [x for x in [flavour, 'b' if version == 'v2' else 'a'] + features
            if x != 'nope']
    S.log('core', ic.core_installer_names)
    S.check(ic.core_installer_names == want, "core installers are not those "
            "of the OS for its version and options")
    S.check(len(asked) > 0, "the OS is not asked")


@harness('C27', bounds="the five shipped installer plugins and a context set "
         "up once with any one or two core installers from the config or the "
         "OS, options for any one of the installers and the name of the fake "
         "installer arbitrary or by default, or twice with any single core "
         "installer; additional ones enabled or not", quick=[{'second': False}, {'second': True}],
         thorough=[{'second': True, 'pairs': True}],
         covers=['renamed', 'own name', 'pip core', 'pip additional'])
def shipped_installers(S, second, pairs=False):
    from xylem.config import get_default_config
    from xylem.installers import InstallerContext
    env.set_entry_points('xylem.installers', [
        (x, 'xylem.installers.plugins.%s:definition' % x) for x in PLUGINS])
    renamed = None
    if not second and S.bool('renamed'):
        renamed = S.name('fake name')
        for x in PLUGINS:
            S.assume(renamed != x)
        S.cover('renamed')
    else:
        S.cover('own name')
    names = [renamed if x == 'fake' and renamed is not None else x
             for x in PLUGINS]

    def configure(tag, config):
        core = [S.pick(tag + 'first', names)]
        if (pairs or not second) and S.bool(tag + 'two'):
            core.append(S.pick(tag + 'more', [x for x in names
                                              if x is not core[0]]))
        options = {}
        which = S.pick(tag + 'options', [None, 'pip'] if second else
                       [None] + PLUGINS)
        if which is not None:
            options[which] = {'as_root': False}
        if renamed is not None:
            options.setdefault('fake', {})['fake_name'] = renamed
        config.installer_options = options
        config.use_additional_installers = S.bool(tag + 'additional')
        return core

    def verify(ic, core, config):
        S.check(ic.core_installer_names == core, "core installers are not "
                "those of the config or the OS")
        extra = ['pip'] if config.use_additional_installers and \
            'pip' not in core else []
        S.check(ic.additional_installer_names == extra, "additional "
                "installers are not those declaring themselves additional "
                "that are no core installers")
        S.cover('pip additional' if extra else 'pip core')
        S.check(ic.installer_names == core + extra and
                sorted(ic.installer_plugin_names) == sorted(names),
                "lists of installers are wrong")
        for x in names:
            inst = ic.lookup_installer(x)
            S.check(inst is not None and inst.name == x,
                    "installer not found by its name")
        if renamed is not None:
            S.check(ic.lookup_installer('fake') is None,
                    "installer found by a name it does not have")
    config = get_default_config()
    core = configure('a', config)
    os_core = ['pip'] if S.bool('from config') else core
    if os_core is not core:
        config.core_installers = list(core)
    ic = InstallerContext(config=config, os_support=OSHolder(
        fake_os('ubuntu', 'v', 'apt', os_core)()))
    S.log('core', ic.core_installer_names)
    verify(ic, core, config)
    if second:
        core = configure('b', config)
        config.core_installers = list(core)
        ic.setup_installers()
        verify(ic, core, config)


# -- plugin loading ---------------------------------------------------------------

BAD_NAMES = ['a b', 'a/b', '', 'a:b', 'a\n']


@harness('C34', bounds="up to n plugins, each fine, disabled, with an "
         "invalid definition of 7 kinds, that cannot be loaded or "
         "instantiated, with an invalid name, with the name "
         "of another one, or with an entry point or object named like a "
         "disabled plugin; any order", quick=[{'n': 2}],
         thorough=[{'n': 3}],
         covers=['fine', 'disabled', 'duplicate', 'invalid'])
def only_valid_plugins_are_loaded(S, n):
    from xylem.installers.impl import Installer, load_installer_plugins
    from xylem.plugin_utils import InvalidPluginError
    from xylem.plugin_utils import PluginBase
    kinds = ['fine', 'same name', 'disabled', 'no plugin name',
             'number as name', 'no description', 'description null',
             'no class', 'other class', 'definition null', 'keyword',
             'bad characters', 'entry point named like a disabled plugin',
             'installer named like a disabled plugin', 'refuses itself',
             'does not load', 'abstract', 'construction fails',
             'verification fails', 'plugin named like another installer']
    items = []
    want = []
    disabled = ['off']
    for i in range(n):
        k = S.pick('kind', kinds)
        name = 'n%d' % i
        if k in ('same name', 'refuses itself'):
            name = 'n0'
        elif k == 'keyword':
            name = S.pick('keyword', KEYWORDS)
        elif k == 'bad characters':
            name = S.pick('bad name', BAD_NAMES)
        elif k == 'installer named like a disabled plugin':
            name = 'off'
        d = plugin('installer', fake_installer(name), 'p%d' % i)
        if k == 'disabled':
            d['plugin_name'] = 'off'
            S.cover('disabled')
        elif k == 'plugin named like another installer':
            d['plugin_name'] = 'n%d' % (1 - i if i < 2 else 0)
        elif k == 'no plugin name':
            del d['plugin_name']
        elif k == 'number as name':
            d['plugin_name'] = 5
        elif k == 'no description':
            del d['description']
        elif k == 'description null':
            d['description'] = None
        elif k == 'no class':
            del d['installer']
        elif k == 'other class':
            d['installer'] = S.pick('class', [
                int, PluginBase, fake_os('x', 'v')])
        elif k == 'definition null':
            d = S.pick('definition', [None, []])
        elif k == 'refuses itself':
            class Refused(d['installer']):
                @classmethod
                def verify_plugin(cls, obj):
                    raise InvalidPluginError('not valid')
            d['installer'] = Refused
        elif k == 'verification fails':
            class Refused(d['installer']):
                @classmethod
                def verify_plugin(cls, obj):
                    raise KeyError('odd')
            d['installer'] = Refused
        elif k == 'does not load':
            d = S.pick('why', [ImportError('no such module'),
                               SyntaxError('invalid syntax')])
        elif k == 'abstract':
            class Refused(Installer):
                @property
                def name(self):
                    return name
            d['installer'] = Refused
        elif k == 'construction fails':
            class Refused(d['installer']):
                def __init__(self):
                    raise OSError('no access')
            d['installer'] = Refused
        if k in ('fine', 'same name') or k.endswith('disabled plugin') or \
                k.endswith('another installer'):
            if name in want:
                S.cover('duplicate')
            else:
                want.append(name)
                S.cover('fine')
        elif k != 'disabled':
            S.cover('invalid')
        items.append(('off' if k.startswith('entry point') else 'e%d' % i,
                      d))
    env.set_entry_points('xylem.installers', items)
    how, got = attempt(load_installer_plugins, disabled)
    S.log('outcome', [how])
    S.check(how == 'ok', "an invalid plugin keeps others from being loaded")
    S.check([p.name for p in got] == want, "loaded plugins are not the valid, "
            "enabled ones with distinct names in their order")
    S.check(disabled == ['off'], "the list of disabled plugins is modified")
    # once more, with other plugins disabled
    how, more = attempt(load_installer_plugins, ['p0'])
    S.check(how == 'ok' and not any(x is y for x in got for y in more),
            "plugins loaded again are not new ones")
    first = [d for _, d in items if isinstance(d, dict) and
             d.get('plugin_name') not in ('p0', 5, None)]
    names = []
    for d in first:
        c = d.get('installer')
        if not isinstance(d.get('description'), str) or c is None or \
                not issubclass(c, Installer) or c.__name__ == 'Refused':
            continue
        x = c().name
        if x in KEYWORDS or x in BAD_NAMES or x in names:
            continue
        names.append(x)
    S.check([p.name for p in more] == names, "plugins loaded again are not "
            "those enabled this time")


@harness('C34', bounds="two plugins with arbitrary names up to n characters",
         quick=[{'n': 1}], thorough=[{'n': 2}],
         covers=['both', 'duplicate', 'refused'])
def plugin_names(S, n):
    from xylem.os_support.impl import load_os_plugins
    alphabet = [ord(c) for c in 'a1-_.+ /:\n']
    names = [S.text('name%d' % i, n, 0, alphabet) for i in range(2)]
    env.set_entry_points('xylem.os', [
        ('e%d' % i, plugin('os', fake_os(x, 'v'), 'p%d' % i))
        for i, x in enumerate(names)])
    got = [p.name for p in load_os_plugins([])]
    S.log('got', got)
    want = []
    for x in names:
        good = x != ''
        for c in x:
            if c == ' ' or c == '/' or c == ':' or c == '\n':
                good = False
        if not good:
            S.cover('refused')
        elif want and want[0] == x:
            S.cover('duplicate')
        else:
            want.append(x)
    if len(want) == 2:
        S.cover('both')
    S.check(got == want, "plugins with an invalid or duplicate name are "
            "loaded, or others are not")


@harness('C34', bounds="two plugins and a disabled one, arbitrary plugin names "
         "up to n characters with wildcards, brackets and any case",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['disabled', 'enabled'])
def names_of_disabled_plugins(S, n):
    from xylem.os_support.impl import load_os_plugins
    alphabet = [ord(c) for c in 'aA*.[]']
    names = [S.text('plugin%d' % i, n, 1, alphabet) for i in range(2)]
    off = S.pick('form', ['', 'a[a]']) or S.text('disabled', n, 1, alphabet)
    if off == 'a[a]':
        names[0] = S.pick('alike', ['a[a]', 'aa'])
    env.set_entry_points('xylem.os', [
        ('e%d' % i, plugin('os', fake_os('n%d' % i, 'v'), x))
        for i, x in enumerate(names)])
    got = [p.name for p in load_os_plugins([off])]
    S.log('got', got)
    want = []
    for i, x in enumerate(names):
        if x == off:
            S.cover('disabled')
        else:
            S.cover('enabled')
            want.append('n%d' % i)
    S.check(got == want, "the loaded plugins are not those that are not "
            "disabled by their name")


# -- resolutions -----------------------------------------------------------------

PLUGINS = ['apt', 'fake', 'homebrew', 'macports', 'pip']


def real_installer(name, options=None):
    from xylem.installers.impl import load_installer_plugins
    env.set_entry_points('xylem.installers', [
        (name, 'xylem.installers.plugins.%s:definition' % name)])
    return load_installer_plugins()[0]


@harness('C29', bounds="rules with up to n packages and up to two "
         "dependencies of arbitrary names, with unknown options, for each of "
         "the five installers and one with an option of its own",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['none', 'several', 'own option', 'depends',
                 'unknown option', 'equal'])
def one_resolution_per_package(S, n):
    from xylem.util import remove_duplicates
    which = S.pick('installer', PLUGINS + ['own'])
    if which == 'own':
        from xylem.config_utils import List, String
        inst = fake_installer('own')()
        inst.installer_rule_description.add('flags', type=List(String),
                                            default=[])
    else:
        inst = real_installer(which)
    pkgs = [S.name('p') for _ in range(S.count('n', 0, n))]
    deps = [S.name('d') for _ in range(S.count('deps', 0, 1))]
    rule = {}
    if pkgs or S.bool('empty list'):
        rule['packages'] = list(pkgs)
    if deps:
        rule['depends'] = list(deps)
    flags = []
    if which == 'own' and S.bool('flags'):
        flags = [S.name('flag')]
        rule['flags'] = list(flags)
        S.cover('own option')
    if S.bool('unknown'):
        rule['something'] = S.pick('value', ['x', ['x'], None])
        S.cover('unknown option')
    before = clone(rule)
    res = inst.resolve(rule)
    S.log('resolutions', [r.package for r in res])
    S.check([r.package for r in res] == pkgs,
            "not exactly one resolution per package in order")
    S.check(inst.get_depends(rule) == deps, "wrong dependencies")
    if deps:
        S.cover('depends')
    S.check(rule == before, "resolving modifies the rule")
    for r in res:
        want = {'package': r.package}
        if which == 'own':
            want['flags'] = flags
        S.check(dict(r) == want, "resolution does not consist of the package "
                "and the installer's options")
    S.cover('none' if not pkgs else 'several' if len(pkgs) > 1 else '')
    again = inst.resolve(clone(before))
    S.check(again == res, "resolving twice gives unequal resolutions")
    for i, a in enumerate(res):
        for b in again[i:i + 1]:
            S.check(a == b and not (a != b) and hash(a) == hash(b),
                    "equal resolutions have unequal hashes")
        for b in res[i + 1:]:
            S.check((a == b) == (a.package == b.package),
                    "resolutions are equal though their packages differ")
    want = []
    for p in pkgs:
        known = False
        for q in want:
            if q == p:
                known = True
                S.cover('equal')
        if not known:
            want.append(p)
    S.check([r.package for r in remove_duplicates(res + again)] == want,
            "duplicate resolutions cannot be removed")


@harness('C29', bounds="two resolved items of arbitrary packages with up to "
         "two options of any of 8 values, set or not, in any order",
         covers=['equal', 'package', 'options'])
def equal_resolutions(S):
    from xylem.installers.installer_base import Resolution
    from xylem.util import remove_duplicates
    VALUES = ['', [], None, False, 0, 'x', ['x'], {'a': []}]
    p, q = S.name('package'), S.name('package')

    def item(p):
        pairs = [('package', p)]
        for k in ('flags', 'other'):
            if S.bool(k):
                pairs.append((k, S.pick('value', VALUES)
                              if k == 'flags' else 'x'))
        if S.bool('reversed'):
            pairs.reverse()
        return dict(pairs)
    x, y = item(p), item(q)
    same = x == y
    a, b = Resolution(x), Resolution(y)
    S.log('equal', bool(same))
    S.check((a == b) == same and (a != b) == (not same),
            "resolved items are not equal exactly if package and options are")
    S.check(not same or hash(a) == hash(b),
            "equal resolutions have unequal hashes")
    S.check(len(remove_duplicates([a, b])) == (1 if same else 2),
            "duplicates are not exactly the equal items")
    if same:
        S.cover('equal')
    elif p == q:
        S.cover('options')
    else:
        S.cover('package')


@harness('C29', bounds="rules whose packages or dependencies have any of the "
         "wrong types, for each of the five installers",
         covers=['packages', 'depends'])
def invalid_rules_are_refused(S):
    from xylem.installers.impl import InvalidRuleError
    inst = real_installer(S.pick('installer', PLUGINS))
    key = S.pick('entry', ['packages', 'depends'])
    bad = S.pick('value', [5, {}, {'a': 'b'}, 'a', [5], [['a']],
                           ['a', {}], True])
    rule = {'packages': [S.name('p')], 'depends': [S.name('d')]}
    rule[key] = bad
    how, e = attempt(S.pick('op', [inst.resolve, inst.get_depends]), rule)
    S.log('outcome', [how])
    S.check(how == 'exc' and isinstance(e, InvalidRuleError),
            "invalid rule is not refused as such")
    S.cover(key)


# -- options ----------------------------------------------------------------------

@harness('C30', bounds="options for each of the five installers and an "
         "unknown one in the config: none, null, empty, any valid value of "
         "as_root, the fake installer's options, unknown options, invalid "
         "values; then set up again with the same, no or other options",
         covers=['default', 'set', 'invalid', 'unknown',
                           'fake', 'again'])
def installer_options_from_config(S):
    import os.path
    from xylem.config import get_default_config
    from xylem.config_utils import ConfigValueError
    from xylem.installers import InstallerContext
    DEFAULT = {'apt': True, 'pip': True, 'macports': True, 'homebrew': False,
               'fake': False}
    which = S.pick('installer', PLUGINS)
    config = get_default_config()
    opt = {}
    bad = False
    root = S.pick('as_root', [None, True, False, 'yes', 'False', 'maybe', 5,
                              []])
    want = DEFAULT[which]
    if root is not None:
        opt['as_root'] = root
        bad = root not in (True, False)
        want = root is True
    if which == 'fake' and S.bool('fake options'):
        opt['install_dir'] = '/x/' + S.pick('dir', ['y', 'z w'])
        opt['fake_name'] = 'apt'
        S.cover('fake')
    if S.bool('unknown option'):
        opt['something'] = S.pick('value', [1, 'x', [None]])
        S.cover('unknown')
    if opt or S.bool('given'):
        config.installer_options = {which: opt, 'nope': {'as_root': False}}
        if not opt and S.bool('null'):
            config.installer_options[which] = None
    env.set_entry_points('xylem.installers', [
        (x, 'xylem.installers.plugins.%s:definition' % x) for x in PLUGINS])
    os = fake_os('ubuntu', 'v', 'apt', ['apt'])()
    before = clone(opt)
    how, ic = attempt(InstallerContext, config=config,
                      os_support=OSHolder(os))
    S.log('outcome', [how])
    S.check((how == 'exc') == bad, "installer options refused although valid "
            "or accepted although invalid")
    S.check(opt == before, "the configured options are modified")
    if bad:
        S.check(isinstance(ic, ConfigValueError),
                "invalid installer options are not a config error")
        S.cover('invalid')
        return
    S.cover('default' if root is None else 'set')
    for inst in ic.installer_plugins:
        me = type(inst).__module__.split('.')[-1]
        if me == which:
            S.check(inst.options.as_root is want,
                    "configured installer options are not used")
            if 'install_dir' in opt:
                S.check(inst.options.install_dir == opt['install_dir'] and
                        inst.name == 'apt', "fake installer options not used")
        else:
            S.check(inst.options.as_root is DEFAULT[me], "options of one "
                    "installer affect another")
        S.check('something' not in inst.options, "unknown option not ignored")
    # the same context set up once more for another config
    if 'fake_name' in opt:
        return  # options are assigned by name, which is an option itself
    again = S.pick('again', ['same', 'none', 'other'])
    if again != 'same':
        opt = {} if again == 'none' else {'as_root': not want}
        ic.config.installer_options = {which: opt}
        S.cover('again')
    ic.setup_installers()
    for inst in ic.installer_plugins:
        me = type(inst).__module__.split('.')[-1]
        if me == which:
            expect = {'same': want, 'none': DEFAULT[me],
                      'other': not want}[again]
            S.check(inst.options.as_root is expect,
                    "options of an earlier configuration are still used")
        else:
            S.check(inst.options.as_root is DEFAULT[me], "options of one "
                    "installer affect another")


@harness('C30', bounds="two installers with names that differ in case "
         "or a suffix; options for any one of them or a third name",
         covers=['set', 'none'])
def options_of_similar_names(S):
    from xylem.config import get_default_config
    names = ['pip', 'Pip', 'pip-', 'pip3', 'PIP']
    have = [S.pick('first', names), S.pick('second', names)]
    if have[0] == have[1]:
        S.reject()
    options = S.pick('options', names)
    config = get_default_config()
    config.installer_options = {options: {'as_root': True}}
    ic = make_ic('ubuntu', 'v', have[0], have[:1],
                 [fake_installer(x, additional=True) for x in have], config)
    S.check(sorted(i.name for i in ic.installer_plugins) == sorted(have),
            "not all installers are loaded")
    for inst in ic.installer_plugins:
        S.check(inst.options.as_root is (inst.name == options),
                "options of another installer are used")
        S.cover('set' if inst.name == options else 'none')


@harness('C30', bounds="two objects of one or two installers or OSs whose "
         "descriptions share a default that is a list or a dict, empty or not; the options "
         "of the first used, set to nothing or to something, and changed "
         "in place",
         covers=['list', 'dict', 'set', 'installer', 'os', 'empty'])
def defaults_are_not_shared(S):
    from xylem.config_utils import Any, Dict, List, String
    kind = S.pick('kind', ['list', 'dict'])
    S.cover(kind)
    default = ['x'] if kind == 'list' else {'x': 'y'}
    if S.bool('empty'):
        default = [] if kind == 'list' else {}
        S.cover('empty')
    before = clone(default)
    what = S.pick('plugin', ['installer', 'os'])
    S.cover(what)
    C = fake_installer('a') if what == 'installer' else fake_os('a', 'v')
    typ = S.pick('type', [List(String), Any] if kind == 'list' else
                 [Dict(Any), Any])

    def make():
        x = C()
        x.options_description.add('extra', type=typ, default=default)
        return x
    a, b = make(), make()
    how = S.pick('how', ['used', 'nothing', 'null', 'other'])
    if how != 'used':
        a.options = {'nothing': {}, 'null': {'extra': None},
                     'other': {'extra': clone(default)}}[how]
        S.cover('set')
    S.check(a.options.extra == before, "wrong default of an option")
    if kind == 'list':
        a.options.extra.append('z')
    else:
        a.options.extra['z'] = 'z'
    S.check(default == before and b.options.extra == before,
            "changing the options of one object changes the default")
    a.options = {}
    S.check(a.options.extra == before, "changing the options changes "
            "the default")


# -- privileges ---------------------------------------------------------------------

@harness('C31', bounds="up to n commands of up to two words with arbitrary "
         "words, already elevated or not, arbitrary user id, variables "
         "naming root, another user or none, as_root "
         "configured either way or by default",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['elevated', 'root', 'not as root', 'already', 'none'])
def privileges_are_elevated(S, n):
    env.ST.euid = S.int('euid', 0, 65535)
    # only the user counts, not what the environment says about it
    cmds = []
    count = S.count('n', 0, n)
    if count == 1:
        os.environ.update(S.pick('environment', [
            {}, {'SUDO_USER': 'x', 'SUDO_UID': '1000', 'USER': 'root',
                 'LOGNAME': 'root', 'HOME': '/root', 'UID': '0'},
            {'USER': 'x', 'LOGNAME': 'x', 'UID': '1000'}]))
    for i in range(count):
        c = [S.name('program')]
        if S.bool('argument'):
            c.append(S.pick('arg', ['x', 'sudo', '']))
        if S.bool('sudo'):
            c.insert(0, 'sudo')
        cmds.append(c)
    for c in cmds:
        if c[0] != 'sudo':
            S.assume(c[0] != 'sudo')
    default = S.bool('default')
    inst = fake_installer('x', commands=lambda p: clone(cmds),
                          as_root=default)()
    as_root = default
    how = S.pick('options', ['none', 'empty', True, False])
    if how == 'empty':
        inst.options = {}
    elif how != 'none':
        inst.options = {'as_root': how}
        as_root = how
    log = []
    inst.get_install_commands_no_root = lambda r, interactive=True, \
        reinstall=False: log.append((interactive, reinstall)) or clone(cmds)
    inter, again = S.bool('interactive'), S.bool('reinstall')
    got = inst.get_install_commands(inst.resolve({'packages': ['p']}),
                                    interactive=inter, reinstall=again)
    S.log('commands', got)
    S.check(log == [(inter, again)], "commands composed for another purpose")
    root = env.ST.euid == 0
    want = []
    for c in cmds:
        if as_root and not root and c[0] != 'sudo':
            want.append(['sudo'] + c)
            S.cover('elevated')
        else:
            want.append(c)
            S.cover('root' if root else 'not as root' if not as_root
                    else 'already')
    if not cmds:
        S.cover('none')
    S.check(got == want, "commands are not elevated exactly when privileges "
            "are needed and missing")


@harness('C31', bounds="one installer used n times, each time by an "
         "arbitrary user and with the options set anew or not, for commands "
         "it composes anew or keeps",
         quick=[{'n': 3}], thorough=[{'n': 4}],
         covers=['elevated', 'unchanged', 'other user', 'other options'])
def privileges_are_those_of_now(S, n):
    program = S.name('program')
    S.assume(program != 'sudo')
    kept = [[program, 'x'], ['sudo', program]]
    keep = S.bool('kept')
    inst = fake_installer('x', commands=lambda p: kept if keep
                          else clone(kept))()
    as_root, last = False, None
    for i in range(n):
        root = S.bool('root')
        env.ST.euid = 0 if root else 1000
        how = S.pick('options', [None, True, False])
        if how is not None:
            if how != as_root and i:
                S.cover('other options')
            inst.options = {'as_root': how}
            as_root = how
        if last not in (None, root):
            S.cover('other user')
        last = root
        got = inst.get_install_commands(inst.resolve({'packages': ['p']}))
        first = [program, 'x']
        if as_root and not root:
            first = ['sudo'] + first
            S.cover('elevated')
        else:
            S.cover('unchanged')
        S.check(got == [first, ['sudo', program]], "commands are not "
                "elevated exactly when privileges are needed and missing")


@harness('C31', bounds="each of the five installers, one or two arbitrary "
         "packages, alone or with 11 or 25 others, arbitrary user id",
         covers=PLUGINS)
def commands_of_the_installers(S):
    import os.path
    env.ST.euid = S.int('euid', 0, 65535)
    which = S.pick('installer', PLUGINS)
    inst = real_installer(which)
    if S.bool('set'):
        as_root = S.bool('as root')
        inst.options = {'as_root': as_root}
    else:
        as_root = which in ('apt', 'pip', 'macports')
    pkgs = [S.name('p') for _ in range(S.count('n', 1, 2))]
    if which == 'fake':
        for p in pkgs:
            S.assume(not p.startswith('/'))
    more = S.pick('more', [0, 11, 25]) if len(pkgs) == 1 else 0
    pkgs = ['x%d' % i for i in range(more)] + pkgs
    cmds = inst.get_install_commands(
        inst.resolve({'packages': list(pkgs)}),
        interactive=S.bool('interactive'), reinstall=S.bool('reinstall'))
    S.log('commands', cmds)
    prefix = []
    if as_root and env.ST.euid != 0:
        prefix = ['sudo']
    program = {'apt': 'apt-get', 'homebrew': 'brew', 'macports': 'port',
               'fake': 'touch', 'pip': 'pip'}[which]
    S.check(len(cmds) > 0, "no commands to install packages")
    named = []
    for c in cmds:
        S.check(c[:len(prefix) + 1] == prefix + [program],
                "command does not run the package manager with the right "
                "privileges")
        rest = c[len(prefix) + 1:]
        for p in pkgs:
            full = p
            if which == 'fake':
                full = os.path.join(inst.options.install_dir, p)
            if full in rest:
                named.append(p)
    for p in pkgs:
        S.check(p in named, "no command installs a package")
    S.cover(which)


# -- installed packages ---------------------------------------------------------------

def spelled(name, how):
    """The same package for pip."""
    return {'upper case': lambda: name.upper(),
            'underscore': lambda: name.replace('-', '_'),
            'dot': lambda: name.replace('-', '.'),
            'same': lambda: name}[how]()


ROWS = {'release': '{p}==1.0', 'no version': '{p}==',
        'file': '{p} @ file:///x/{p}.zip', 'url': '{p} @ https://h/y==2',
        'editable': '-e git+https://h/x@12#egg={p}',
        'subdirectory': '-e git+ssh://h/x@12#egg={p}&subdirectory=z'}


@harness('C32', bounds="up to n packages, arbitrary names possibly equal or "
         "spelled differently, any subset of them installed in any of six "
         "ways according to pip or the fake installer's directory", quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['pip', 'fake', 'installed', 'missing', 'nothing',
                 'changed', 'file', 'editable', 'url', 'upper case',
                 'underscore', 'subdirectory'])
def uninstalled_packages(S, n):
    import os
    which = S.pick('installer', ['pip', 'fake'])
    inst = real_installer(which)
    alphabet = [ord(c) for c in 'ab-']
    pkgs = [S.text('p%d' % i, 2, 1, alphabet)
            for i in range(S.count('n', 0, n))]
    if pkgs and S.bool('in a folder'):
        pkgs[0] = 'a/' + pkgs[0]
    names = list(pkgs)      # as canonical names
    present = [S.text('q%d' % i, 2, 1, alphabet)
               for i in range(S.count('present', 0, 1))]
    if which == 'pip':
        for q in present:
            S.assume(q[0] != '-')
        lines = 'unrelated==1\n'
        for q in present:
            how = S.pick('spelled', ['same', 'upper case', 'underscore'])
            row = S.pick('row', sorted(ROWS)) if how == 'same' else 'release'
            if row == 'release':
                S.cover(how)
            else:
                S.cover(row)
            lines += ROWS[row].replace('{p}', spelled(q, how)) + '\n'
        env.ST.process = lambda cmd: (0, lines, '')
        if pkgs and present and row == 'release':
            pkgs[0] = spelled(pkgs[0], S.pick('requested',
                                              ['same', 'upper case', 'dot']))
    else:
        base = os.path.join(env.scratch(), 'fake')
        if present or S.bool('directory exists'):
            os.makedirs(base)
        for q in present:
            with open(os.path.join(base, q), 'w'):
                pass
        inst.options = {'install_dir': base}
    S.cover(which)
    res = inst.resolve({'packages': list(pkgs)})
    got = [r.package for r in inst.filter_uninstalled(list(res))]
    S.log('uninstalled', got)
    want = []
    for p, name in zip(pkgs, names):
        found = False
        for q in present:
            if name == q:
                found = True
        if not found:
            want.append(p)
        S.cover('installed' if found else 'missing')
    if not pkgs:
        S.cover('nothing')
    S.check(got == want, "uninstalled packages are not those the package "
            "manager does not list, in order")
    S.check(inst.is_installed(list(res)) == (want == []),
            "a list of packages is installed although one of them is not, "
            "or the other way around")
    for r in res:
        S.check(inst.is_installed(r) == (r.package not in want),
                "a package is both installed and uninstalled")
    # the first package is installed or removed meanwhile
    if pkgs and pkgs[0][:2] != 'a/' and S.bool('changes'):
        p = pkgs[0]
        now = not inst.is_installed(res[0])
        if which == 'pip':
            S.assume(p[0] != '-')
            text = (p + '==2\n') if now else 'unrelated==1\n'
            env.ST.process = lambda cmd: (0, text, '')
        elif now:
            if not os.path.isdir(base):
                os.makedirs(base)
            with open(os.path.join(base, p), 'w'):
                pass
        else:
            os.remove(os.path.join(base, p))
        S.check(inst.is_installed(res[0]) == now and
                (res[0] in inst.filter_uninstalled([res[0]])) != now,
                "a package installed or removed meanwhile is not noticed")
        S.cover('changed')


# -- prerequisites --------------------------------------------------------------------

@harness('C33', bounds="package manager installed, installable or not, known "
         "to be up to date, outdated and updatable, or unknown; installing "
         "and updating it raising an error or not; fixing "
         "prerequisites, pretending to, or not; interactive or not",
         covers=['raised', 'fine', 'installed', 'refused', 'not supported', 'failed',
                 'updated', 'outdated', 'simulated', 'unknown'])
def general_prerequisites(S):
    from xylem.installers.impl import InstallerPrerequisiteError
    from xylem.installers.package_manager_installer import \
        PackageManagerInstaller
    fix = S.pick('fix', [False, True, 'simulate'])
    inter = S.bool('interactive')
    there = S.bool('installed')
    can_install = S.pick('can install', ['yes', 'fails', 'not supported',
                                         'raises'])
    age = S.pick('age', ['current', 'old', 'unknown'])
    can_update = S.pick('can update', ['yes', 'fails', 'not supported',
                                       'raises'])
    state = {'there': there, 'old': age == 'old'}
    calls = []

    class Manager(PackageManagerInstaller):
        name = 'pm'

        def __init__(self):
            super(Manager, self).__init__('pm-tool')

        def get_install_commands_no_root(self, resolved, interactive=True,
                                         reinstall=False):
            return []

        def filter_uninstalled(self, resolved):
            return resolved

        def install_package_manager(self, os_tuple, interactive=True):
            calls.append(('install', os_tuple, interactive))
            if can_install == 'not supported':
                raise NotImplementedError()
            if can_install == 'raises':
                raise OSError(13, 'permission denied')
            if can_install == 'yes':
                state['there'] = True

        def is_package_manager_updated(self):
            if age == 'unknown':
                raise NotImplementedError()
            return not state['old']

        def update_package_manager(self, interactive=True):
            calls.append(('update', None, interactive))
            if can_update == 'not supported':
                raise NotImplementedError()
            if can_update == 'raises':
                raise OSError(13, 'permission denied')
            if can_update == 'yes':
                state['old'] = False

    def process(cmd):
        S.check(cmd == ['pm-tool'], "runs something else than the package "
                "manager to see if it is there")
        if not state['there']:
            raise OSError(2, 'no such file')
        return S.pick('code', [0, 1]), '', ''
    env.ST.process = process
    inst = Manager()
    how, e = attempt(inst.check_general_prerequisites, ('ubuntu', 'v'),
                     fix_unsatisfied=fix, interactive=inter)
    S.log('outcome', [how, [c[0] for c in calls]])
    if how == 'exc' and 'raises' in (can_install, can_update) and \
            isinstance(e, OSError):
        S.check(calls and 'raises' in [
            {'install': can_install, 'update': can_update}[c[0]]
            for c in calls], "an error out of nowhere")
        S.cover('raised')
        return
    if how == 'exc':
        S.check(isinstance(e, InstallerPrerequisiteError),
                "unsatisfied prerequisites raise an unrelated error")
        S.check(not there and fix != 'simulate' and not state['there'],
                "prerequisites refused although the package manager is "
                "installed")
        S.cover('refused' if not fix else can_install
                if can_install == 'not supported' else 'failed')
    else:
        S.check(state['there'] or fix == 'simulate',
                "a missing package manager is accepted")
    want = []
    if not there and fix is True:
        want.append('install')
    if fix is True and age == 'old' and how == 'ok':
        want.append('update')
    S.check([c[0] for c in calls] == want, "prerequisites are not fixed "
            "exactly when this is requested and necessary")
    for c in calls:
        S.check(c[2] == inter, "interactive setting not passed on")
        if c[0] == 'install':
            S.check(c[1] == ('ubuntu', 'v'), "wrong OS passed on")
            if how == 'ok':
                S.cover('installed')
        elif not state['old']:
            S.cover('updated')
    if how == 'ok' and state['old']:
        S.cover('outdated')
    if fix == 'simulate':
        S.cover('simulated')
    if age == 'unknown':
        S.cover('unknown')
    if there and age == 'current':
        S.cover('fine')


@harness('C33', bounds="two keys of one or two installers, packages "
         "installed or not, prerequisites of any of them failing",
         covers=['failing', 'fine', 'nothing to install'])
def prerequisites_before_installing(S):
    from h_install import Job
    from xylem.installers.impl import InstallerPrerequisiteError
    fail = S.pick('fail', [None, 'general', 'prereq'])

    def check(which):
        def f(fix):
            if fail == which:
                raise InstallerPrerequisiteError('unsatisfied')
        return f
    w = Job(S, 2, kinds=['a', 'b'], codes=(0, 0), general=check('general'),
            prereq=check('prereq'))
    fix = S.bool('fix')
    inter = S.bool('interactive')
    how, r = attempt(w.install, fix_prerequisites=fix, interactive=inter)
    S.log('outcome', [how, [e[0] for e in w.log]])
    first = len(w.log)
    for i, e in enumerate(w.log):
        if e[0] == 'run':
            first = i
            break
    general = [e for e in w.log if e[0] == 'general']
    prereq = [e for e in w.log if e[0] == 'prereq']
    todo = [p for p, _ in w.packages if not w.before.get(p, False)]
    if fail and (fail == 'general' or todo):
        S.check(how == 'exc' and isinstance(r, InstallerPrerequisiteError),
                "unsatisfied prerequisites are not raised")
        S.check(w.run == [], "installing despite unsatisfied prerequisites")
        S.cover('failing')
        return
    S.check(how == 'ok', "prerequisites of nothing are unsatisfied")
    used = sorted(set(i for _, i in w.packages))
    S.check(sorted(e[1] for e in general) == used, "general prerequisites "
            "not checked once for every used installer")
    needed = []
    for e in prereq:
        needed += e[2]
        for p in e[2]:
            S.check(w.installer(p) == e[1], "prerequisites checked by "
                    "another installer")
    S.check(len(needed) == len(todo) and all(p in needed for p in todo),
            "prerequisites not checked for exactly the packages to install")
    for e in w.log[first:]:
        S.check(e[0] not in ('general', 'prereq'),
                "prerequisites checked after installing started")
    for e in general + prereq:
        S.check(e[-2:] == (fix, inter), "settings not passed on")
    S.cover('fine' if todo else 'nothing to install')
