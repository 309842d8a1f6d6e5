"""The Python interface: configuration and contexts handed to it."""

import os

import env
from symx.hapi import harness
from lib import attempt, clone, distinct, fake_os, fake_installer, plugin
from h_merge import Response


class Worlds(object):
    """Independent sets of sources and cache, one package name each."""

    def __init__(self, S, n):
        from xylem.sources import SourcesContext, RulesDatabase
        self.base = env.scratch()
        self.packages = [S.name('package') for _ in range(n)]
        distinct(S, self.packages)
        env.ST.url = lambda url, *a, **k: Response(self.page(url))
        self.log = []
        self.done = []
        insts = [fake_installer(
            x, self.log, uninstalled=lambda p: env.ST.commands == [])
            for x in 'abcd']
        env.ST.process = lambda cmd: (0, '', '')
        env.set_entry_points('xylem.installers', [
            (c, plugin('installer', c, 'p%d' % i))
            for i, c in enumerate(insts)])
        env.set_entry_points('xylem.os', [
            ('u', plugin('os', fake_os('ubuntu', 'v1', 'a', [],
                                       ['v1', 'v2']), 'u'))])
        env.set_entry_points('xylem.specs', [
            ('rules', 'xylem.specs.plugins.rules:definition')])
        self.configs = []
        for i in range(n):
            d = self.sources_dir(i)
            os.makedirs(d)
            with open(os.path.join(d, 's.yaml'), 'w') as f:
                f.write('- rules: http://host/%d\n' % i)

    def page(self, url):
        p = self.packages[int(url[-1])]
        return 'key:\n  any_os:\n    any_version:\n' + ''.join(
            '      %s: {packages: [%s]}\n' % (x, p) for x in 'abcd')

    def sources_dir(self, i):
        return os.path.join(self.base, 'w%d' % i, 'sources.d')

    def cache_dir(self, i):
        return os.path.join(self.base, 'w%d' % i, 'cache')

    def cached(self, i):
        d = self.cache_dir(i)
        return os.path.isdir(d) and len(os.listdir(d)) > 0

    def config(self, i, core, install_from=None, version=None):
        from xylem.config import get_default_config
        c = get_default_config()
        for k, v in self.plain(i, core, install_from, version).items():
            c[k] = v
        return c

    def plain(self, i, core, install_from, version):
        c = {'sources_dir': self.sources_dir(i),
             'cache_dir': self.cache_dir(i), 'core_installers': [core],
             'install_from': {}, 'os_override': ('ubuntu', version or 'v1')}
        if install_from:
            c['install_from'] = {install_from: ['key']}
        return c


@harness('C45', bounds="update, lookup, resolve and install with any "
         "combination of a configuration, sources context, installer "
         "context and database handed over or left out, next to a global "
         "configuration; arbitrary package names; the database loaded or "
         "not",
         covers=['not loaded', 'global', 'given', 'dict', 'sources',
                 'installers', 'database', 'update', 'lookup', 'resolve', 'install'])
def what_is_given_is_used(S):
    import importlib
    from xylem.config import set_config
    from xylem.sources import SourcesContext, RulesDatabase
    from xylem.installers import InstallerContext
    what = S.pick('function', ['update', 'lookup', 'resolve', 'install'])
    S.cover(what)
    f = getattr(importlib.import_module('xylem.' + what), what)
    w = Worlds(S, 4)
    froms = [S.pick('install from', [None, 'd']) if what in
             ('resolve', 'install') else None for _ in range(2)]
    glob = w.config(0, 'a', froms[0])
    set_config(glob)
    for i in range(4):
        if what != 'update':
            ctx = SourcesContext(w.config(i, 'a'))
            ctx.ensure_cache_dir()
            RulesDatabase(ctx).update()
    kwargs = {}
    world, inst = 0, 'a'
    c = froms[0]
    kind = S.pick('config', ['none', 'config', 'dict'])
    S.cover({'none': 'global', 'config': 'given', 'dict': 'dict'}[kind])
    if kind != 'none':
        world, inst, c = 1, 'b', froms[1]
        kwargs['config'] = w.config(1, 'b', froms[1])
        if kind == 'dict':
            kwargs['config'] = dict(w.plain(1, 'b', froms[1], None),
                                    os_override='ubuntu:v1')
    if S.bool('sources context'):
        S.cover('sources')
        world = 2
        kwargs['sources_context'] = SourcesContext(w.config(2, 'a'))
    if what != 'update' and S.bool('installer context'):
        S.cover('installers')
        inst = 'c'
        kwargs['installer_context'] = InstallerContext(w.config(3, 'c'))
    if what in ('resolve', 'install') and S.bool('database'):
        S.cover('database')
        world = 3
        db = RulesDatabase(SourcesContext(w.config(3, 'a')))
        kwargs['database'] = db
        if S.bool('not loaded'):
            # it is up to the caller what the database knows
            how, got = attempt(f, ['key'], **kwargs)
            S.log('got', [how])
            S.check(env.ST.commands == [], "unknown packages are installed")
            if how == 'ok':
                S.check([k for k, _ in got[0 if what == 'install' else 1]] ==
                        ['key'], "a key the database does not know is "
                        "resolved")
            S.cover('not loaded')
            return
        db.load_from_cache()
    inst = c or inst
    package = w.packages[world]
    if what == 'update':
        how, got = attempt(f, **kwargs)
        S.check(how == 'ok', "updating fails: %r" % (got,))
        for i in range(4):
            S.check(w.cached(i) == (i == world), "other cache than that of "
                    "the configuration used")
    elif what == 'lookup':
        how, got = attempt(f, 'key', **kwargs)
        S.log('got', got)
        S.check(how == 'ok' and sorted(got) == ['a', 'b', 'c', 'd'] and
                got['a'] == {'packages': [package]},
                "not the rules of the sources used")
    elif what == 'resolve':
        how, got = attempt(f, ['key'], **kwargs)
        S.log('got', [how, got])
        S.check(how == 'ok' and not got[1] and len(got[0]) == 1,
                "resolving fails")
        key, (name, items) = got[0][0]
        S.check(key == 'key' and name == inst, "not the installer of the "
                "configuration and context used")
        S.check([x.package for x in items] == [package],
                "not the rules of the sources used")
    else:
        how, got = attempt(f, ['key'], **kwargs)
        S.log('got', [how, got])
        S.check(how == 'ok' and got == ([], []), "installing fails")
        S.check([x for _, x in env.ST.commands] == [[inst, 'install', package]],
                "not the package of the sources and installer used")


@harness('C45', bounds="lookup, resolve and install called up to n times "
         "with the same or a new configuration object, given or global, that "
         "is changed in between: sources, cache, core installers, "
         "install-from settings and OS version; arbitrary package names",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['sources', 'core', 'install from', 'version', 'same'])
def configuration_changed_in_between(S, n):
    import importlib
    from xylem.config import set_config
    from xylem.sources import SourcesContext, RulesDatabase
    w = Worlds(S, 2)
    for i in range(2):
        ctx = SourcesContext(w.config(i, 'a'))
        ctx.ensure_cache_dir()
        RulesDatabase(ctx).update()
    given = S.bool('given')
    setting = [0, 'a', None, 'v1']
    config = w.config(0, 'a')
    if given:
        set_config(w.config(1, 'd'))
    else:
        set_config(config)
    what = S.pick('function', ['lookup', 'resolve', 'install'])
    f = getattr(importlib.import_module('xylem.' + what), what)
    for i in range(n):
        if i:
            change = S.pick('change', ['sources', 'core', 'install from',
                                       'version', 'same'])
            S.cover(change)
            j, values = {'sources': (0, [1, 0]), 'core': (1, ['b', 'a']),
                         'install from': (2, ['c', None]),
                         'version': (3, ['v2', 'v1']),
                         'same': (0, setting[:1] * 2)}[change]
            setting[j] = values[1] if setting[j] == values[0] else values[0]
            new = w.plain(setting[0], setting[1], setting[2], setting[3])
            if S.bool('new object'):
                config = w.config(setting[0], setting[1], setting[2],
                                  setting[3])
                if not given:
                    set_config(config)
            else:
                for k, v in new.items():
                    config[k] = v
        package = w.packages[setting[0]]
        inst = setting[2] or setting[1]
        kwargs = {'config': config} if given else {}
        del env.ST.commands[:]
        del w.log[:]
        if what == 'lookup':
            got = f('key', **kwargs)
            S.check(got['a'] == {'packages': [package]},
                    "not the rules of the sources used")
        elif what == 'resolve':
            got = f(['key'], **kwargs)
            S.check(not got[1] and [x for x, _ in got[0]] == ['key'],
                    "resolving fails")
            name, items = got[0][0][1]
            S.check(name == inst, "not the installer of the configuration "
                    "used")
            S.check([x.package for x in items] == [package],
                    "not the rules of the sources used")
        else:
            got = f(['key'], **kwargs)
            S.check(got == ([], []), "installing fails")
            S.check([x for _, x in env.ST.commands] ==
                    [[inst, 'install', package]],
                    "not the package of the sources and installer used")
        S.log('got', got)


@harness('C45', bounds="sources and installer contexts and databases made "
         "with a configuration or without; arbitrary package names",
         covers=['given', 'global'])
def contexts_made_of_a_configuration(S):
    from xylem.config import set_config
    from xylem.sources import SourcesContext, RulesDatabase
    from xylem.installers import InstallerContext
    w = Worlds(S, 2)
    set_config(w.config(0, 'a'))
    given = w.config(1, 'b', version='v2')
    i = S.pick('world', [0, 1])
    S.cover('given' if i else 'global')
    ctx = SourcesContext(given) if i else SourcesContext()
    ic = InstallerContext(given) if i else InstallerContext()
    ctx.ensure_cache_dir()
    db = RulesDatabase(ctx)
    db.update()
    S.check(w.cached(i) and not w.cached(1 - i), "not the cache of the "
            "configuration used")
    S.check(ic.core_installer_names == ['ab'[i]] and
            ic.get_os_tuple() == ('ubuntu', ['v1', 'v2'][i]),
            "not the installers or OS of the configuration used")
    S.check(db.lookup('key', ic)['a'] == {'packages': [w.packages[i]]},
            "not the rules of the configuration used")


@harness('C45', bounds="up to n configurations ensured one after another, "
         "each from a dict with one of three settings or none, from a "
         "configuration or from nothing; the global one set or not",
         quick=[{'n': 3}], thorough=[{'n': 4}],
         covers=['dict', 'given', 'default', 'global'])
def nothing_given_is_kept(S, n):
    from xylem.config import (set_config, get_config, ensure_config,
                              get_default_config)
    glob = None
    if S.bool('global'):
        glob = get_default_config()
        if S.bool('other'):
            glob.core_installers = [S.name('global')]
        set_config(glob)
    for i in range(n):
        what = S.pick('what', ['core', 'additional', 'override', 'empty',
                               'config', 'nothing'])
        value, over, add = None, None, True
        if what == 'nothing':
            got = ensure_config(S.pick('how', [None, None]))
            if glob is not None:
                S.cover('global')
                S.check(got is glob, "not the global configuration")
                value = glob.core_installers
            else:
                S.cover('default')
        elif what == 'config':
            S.cover('given')
            given = get_default_config()
            given.core_installers = value = [S.name('given')]
            got = ensure_config(given)
            S.check(got is given, "not the given configuration")
        else:
            S.cover('dict')
            d = {}
            if what == 'core':
                d['core_installers'] = value = [S.name('core')]
            elif what == 'additional':
                d['use_additional_installers'] = add = False
            elif what == 'override':
                d['os_override'], over = 'a:b', ('a', 'b')
            before = clone(d)
            got = ensure_config(d)
            S.check(d == before, "the given dict is changed")
        S.log('got', [got.core_installers])
        S.check(got.core_installers == value and
                got.use_additional_installers == add and
                got.os_override == over and got.install_from == {} and
                got.os_options.features is None,
                "settings of another configuration are used")
        if glob is not None:
            S.check(get_config() is glob, "the global configuration is "
                    "replaced")
        else:
            S.check(get_config().core_installers is None,
                    "a given configuration becomes the global one")


@harness('C45', bounds="update, lookup, resolve and install with values of other "
         "types in place of the configuration or a context",
         covers=['config', 'context', 'dict'])
def invalid_things_given(S):
    import importlib
    from xylem.config import set_config
    from xylem.exception import XylemError
    w = Worlds(S, 1)
    set_config(w.config(0, 'a'))
    what = S.pick('function', ['update', 'lookup', 'resolve', 'install'])
    f = getattr(importlib.import_module('xylem.' + what), what)
    arg = S.pick('argument', ['config', 'sources_context'] +
                 ['installer_context'] * (what != 'update'))
    if arg == 'config':
        bad = S.pick('value', [5, 'text', [], True, False,
                               {'core_installers': 5},
                               {'install_from': [5]}])
        S.cover('dict' if isinstance(bad, dict) else 'config')
    else:
        bad = S.pick('value', [5, 'text', [1], {'a': 1}, True])
        S.cover('context')
    args = {'update': [], 'lookup': ['key']}.get(what, [['key']])
    how, got = attempt(f, *args, **{arg: bad})
    S.log('outcome', [how])
    S.check(how == 'exc' and isinstance(got, (ValueError, XylemError)),
            "invalid argument accepted")
    S.check(env.ST.commands == [], "commands executed")
    S.check(not w.cached(0), "cache created")
