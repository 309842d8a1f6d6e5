"""Helpers for harnesses (loaded instrumented in symbolic mode)."""

import os
import threading

import env


def attempt(f, *a, **k):
    """('ok', result) or ('exc', exception)."""
    try:
        return ('ok', f(*a, **k))
    except Exception as e:
        return ('exc', e)


def distinct(S, names):
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            S.assume(a != b)


def not_one_of(S, name, words):
    for w in words:
        S.assume(name != w)


KEYWORDS = ['any_os', 'any_version', 'default_installer',
            'unset_installers', 'any_key']


def clone(x):
    """Structural copy (dicts, lists)."""
    if isinstance(x, dict):
        r = {}
        for k, v in x.items():
            r[k] = clone(v)
        return r
    if isinstance(x, list):
        return [clone(v) for v in x]
    return x


def same_list(a, b):
    return len(a) == len(b) and a == b


# -- fake plugins ----------------------------------------------------------------

def fake_os(name, version, default=None, core=(), known=None, parents=(),
            detected=True, version_error=None, mapping=None):
    """Class of an OS plugin."""
    from xylem.os_support import OSBase

    class FakeOS(OSBase):

        @property
        def all_names(self):
            return [name] + list(parents)

        def get_version(self):
            if version_error is not None:
                raise version_error
            return version

        def get_all_tuples(self, version):
            return [(n, version) for n in self.all_names]

        def get_core_installers(self, version, options):
            return list(core)

        @property
        def default_installer(self):
            return default

        @property
        def known_versions(self):
            return list(known) if known is not None else [version]

        def is_os(self):
            return detected

    return FakeOS


class OSHolder(object):
    """Stands in for OSSupport with a fixed OS."""

    def __init__(self, os):
        self.current_os = os


def fake_installer(name_, log=None, additional=False, uninstalled=None,
                   commands=None, rule_error=None, as_root=False,
                   general=None, prereq=None):
    """Class of an installer plugin.

    ``log`` collects the calls made to the installer; ``uninstalled``,
    ``commands``, ``general`` and ``prereq`` are functions deciding the
    answers (they may raise).
    """
    from xylem.installers.installer_base import InstallerBase
    log = [] if log is None else log

    class FakeInstaller(InstallerBase):

        def __init__(self):
            super(FakeInstaller, self).__init__()
            self.options_description.items["as_root"].default = as_root

        @property
        def name(self):
            return name_

        def use_as_additional_installer(self, os_tuple):
            return additional

        def resolve(self, rule):
            if rule_error is not None:
                rule_error(rule)
            return super(FakeInstaller, self).resolve(rule)

        def filter_uninstalled(self, resolved):
            log.append(('filter', name_, [r.package for r in resolved]))
            if uninstalled is None:
                return list(resolved)
            return [r for r in resolved if uninstalled(r.package)]

        def get_install_commands_no_root(self, resolved, interactive=True,
                                         reinstall=False):
            log.append(('commands', name_, [r.package for r in resolved],
                        interactive, reinstall))
            if commands is not None:
                return commands([r.package for r in resolved])
            return [[name_, 'install', r.package] for r in resolved]

        def check_general_prerequisites(self, os_tuple,
                                        fix_unsatisfied=False,
                                        interactive=True):
            log.append(('general', name_, fix_unsatisfied, interactive))
            if general is not None:
                general(fix_unsatisfied)

        def check_install_prerequisites(self, resolved, os_tuple,
                                        fix_unsatisfied=False,
                                        interactive=True):
            log.append(('prereq', name_, [r.package for r in resolved],
                        fix_unsatisfied, interactive))
            if prereq is not None:
                prereq(fix_unsatisfied)

    return FakeInstaller


def plugin(kind, cls, name='p'):
    d = {'plugin_name': name, 'description': 'fake plugin'}
    d[kind] = cls
    return d


def make_ic(osname, version, default=None, core=(), installers=(),
            config=None, setup=True, parents=()):
    """Installer context for a fixed OS and the given installer classes."""
    from xylem.config import get_default_config
    from xylem.installers import InstallerContext
    env.set_entry_points('xylem.installers', [
        ('e%d' % i, plugin('installer', c, 'p%d' % i))
        for i, c in enumerate(installers)])
    if config is None:
        config = get_default_config()
    os = fake_os(osname, version, default, core, parents=parents)()
    return InstallerContext(config=config, os_support=OSHolder(os),
                            setup_installers=setup)


# -- rules -----------------------------------------------------------------------

def spec_lookup(rules, key, osn, ver, default):
    """What a rules dict provides for key on an OS (specification)."""
    os_dict = rules.get(key, {})
    out = {}
    parts = [os_dict.get('any_os', {}).get('any_version', {})]
    vd = os_dict.get(osn, {})
    parts.append(vd.get('any_version', {}))
    parts.append(vd.get(ver, {}))
    for d in parts:
        for k, v in d.items():
            out[default if k == 'default_installer' else k] = v
    return out


def gen_rules(S, tag, keys, oss, vers, insts, allow_default=True,
              any_os=True, nonempty=True, optional_key=True):
    """Expanded rules over fixed names; the presence of every entry and
    its content are symbolic choices."""
    rules = {}
    for key in keys:
        if optional_key and not S.bool('%s.%s' % (tag, 'key')):
            continue
        od = {}
        if any_os and S.bool(tag + '.any_os'):
            d = gen_inst(S, tag + '.any_os', insts, False, nonempty)
            od['any_os'] = {'any_version': d}
        for o in oss:
            vd = {}
            for v in vers:
                if S.bool(tag + '.ver'):
                    vd[v] = gen_inst(S, tag + '.v', insts, allow_default,
                                     nonempty)
            if vd or S.bool(tag + '.emptyos'):
                od[o] = vd
        rules[key] = od
    return rules


def gen_inst(S, tag, insts, allow_default, nonempty):
    pool = list(insts)
    if allow_default:
        pool.append('default_installer')
    if nonempty:
        first = S.pick(tag + '.i', pool)
        chosen = [first] + [x for x in pool[pool.index(first) + 1:]
                            if S.bool(tag + '.more')]
    else:
        chosen = [x for x in pool if S.bool(tag + '.more')]
    return {i: {'packages': [S.name(tag + '.p')]} for i in chosen}


class Killed(BaseException):
    """The simulated process was killed while others go on."""


class Processes(object):
    """Functions run as if by processes of their own, taking turns.

    Another one may go on at every change of the file system or download,
    up to a number of switches; which one is up to the solver. One of the
    processes may be killed instead of going on.
    """

    def __init__(self, S, mains, switches, kill=False):
        self.S = S
        self.n = len(mains)
        self.left = switches
        self.kill = kill
        self.mains = mains
        self.turns = [threading.Semaphore(0) for _ in mains]
        self.done = threading.Semaphore(0)
        self.alive = [True for _ in mains]
        self.killed = [False for _ in mains]
        self.results = [None for _ in mains]
        self.error = None
        self.now = 0
        self.switches = []

    def others(self):
        return [i for i in range(self.n) if self.alive[i] and i != self.now]

    def step(self, *a):
        if self.error is not None or self.killed[self.now]:
            raise Killed()
        others = self.others()
        if self.left == 0 or not others:
            return
        to = self.S.pick('next', [None] + others)
        if to is None:
            return
        self.left -= 1
        self.switches.append((self.now, to))
        me, self.now = self.now, to
        self.turns[to].release()
        self.turns[me].acquire()
        if self.error is not None:
            raise Killed()
        if self.kill and self.S.bool('killed'):
            self.kill = False
            self.killed[me] = True
            raise Killed()

    def main(self, i):
        self.turns[i].acquire()
        try:
            if self.error is None:
                self.results[i] = attempt(self.mains[i])
        except Killed:
            self.results[i] = ('killed', None)
        except BaseException as e:
            self.error = e
        self.alive[i] = False
        others = self.others()
        if others:
            self.now = others[0]
            self.turns[self.now].release()
        else:
            self.done.release()

    def run(self):
        env.ST.fs_hook = self.step
        # ids need not follow each other
        apart = self.S.pick('ids apart', [1, 100, 1000, 65536])
        env.patch(os, 'getpid', lambda: 1000 + self.now * apart)
        ts = [threading.Thread(target=self.main, args=(i,), daemon=True)
              for i in range(self.n)]
        for t in ts:
            t.start()
        self.turns[0].release()
        self.done.acquire()
        for t in ts:
            t.join()
        env.ST.fs_hook = None
        if self.error is not None:
            raise self.error
        return self.results
