"""Operating systems: detection, override, versions."""

import builtins
import os
import platform
import re
import sys
import types

import env
from symx.hapi import harness
from lib import attempt, distinct, clone, fake_os, plugin


def install_os_plugins(classes):
    env.set_entry_points('xylem.os', [
        ('e%d' % i, plugin('os', c, 'p%d' % i))
        for i, c in enumerate(classes)])


# name -> more general names
FAMILY = {'debian': [], 'ubuntu': ['debian'], 'mint': ['ubuntu', 'debian'],
          'osx': [], 'raspbian': ['debian']}


@harness('C24', bounds="any subset of up to n of five OSs, three of them one "
         "derived from the other and two more, in any order of plugins, any "
         "of them accepting the current OS",
         quick=[{'n': 3}], thorough=[{'n': 4}, {'n': 5}],
         covers=['derived', 'only', 'none', 'several', 'cached'])
def most_specific_os_is_detected(S, n):
    from xylem.os_support import OSSupport, UnsupportedOSError
    names = sorted(FAMILY)
    order = []
    for i in range(n):
        left = [x for x in names if x not in order]
        order.append(S.pick('plugin', left))
    accepts = {x: S.bool('accepts') for x in order}
    calls = []

    def make(x):
        class OS(fake_os(x, S.name('version'), parents=FAMILY[x])):
            def is_os(self):
                calls.append(x)
                return accepts[x]
        return OS
    install_os_plugins([make(x) for x in order])
    support = OSSupport()
    hits = [x for x in order if accepts[x]]
    top = [x for x in hits if not any(x in FAMILY[y] for y in hits)]
    how, os = attempt(lambda: support.current_os)
    S.log('outcome', [how, getattr(os, 'name', None)])
    if not hits:
        S.check(how == 'exc' and isinstance(os, UnsupportedOSError),
                "an unsupported OS is not reported")
        S.cover('none')
        return
    S.check(how == 'ok' and os.name in top, "the detected OS is not one of "
            "the most specific ones accepting the current OS")
    if len(top) == 1:
        S.cover('derived' if len(hits) > 1 else 'only')
    else:
        S.cover('several')
    n_calls = len(calls)
    S.check(support.current_os is os and len(calls) == n_calls,
            "detected OS changes without reason")
    S.cover('cached')
    S.check(sorted(support.get_default_installer_names()) == sorted(order),
            "default installers of the wrong OSs")
    for x in names:
        o = support.lookup_os(x)
        S.check((o is not None) == (x in order) and
                (o is None or o.name == x), "OS not found by its name")


@harness('C25', bounds="two OSs with up to n versions of arbitrary names, "
         "overridden by arbitrary OS name and version (possibly empty) or only "
         "an OS name; "
         "version detection succeeding or not",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['known', 'detected', 'unknown os', 'unknown version',
                 'undetectable', 'no override'])
def override_of_the_os(S, n):
    from xylem.config import get_default_config
    from xylem.installers import InstallerContext
    from xylem.os_support import UnsupportedOSError, UnsupportedOSVersionError
    known = [S.name('version') for _ in range(S.count('n', 1, n))]
    actual = S.name('actual version')
    fails = S.bool('detection fails')
    name = S.name('os', extra=['ubuntu', 'osx'])
    version = {'none': None, 'empty': ''}.get(
        S.pick('version', ['none', 'empty', 'name']), '?')
    if version == '?':
        version = S.name('requested version')
    default = S.name('default installer')
    core = [S.name('core installer')]

    def classes(detected):
        ubuntu = fake_os(
            'ubuntu', actual, default, core, known, ['debian'], detected,
            UnsupportedOSVersionError('no') if fails else None)
        return [fake_os('osx', 'x', 'brew', ['brew'], ['x'],
                        detected=not detected), ubuntu]
    install_os_plugins(classes(False))
    env.set_entry_points('xylem.installers', [])
    config = get_default_config()
    overridden = S.bool('override')
    if overridden:
        config.os_override = (name, version)
    feature = S.name('feature')
    config.os_options.features = [feature]
    how, ic = attempt(InstallerContext, config=config, setup_installers=False)
    S.log('outcome', [how])
    if not overridden:
        S.check(how == 'ok' and ic.get_os_tuple() == ('osx', 'x') and
                ic.get_default_installer_name() == 'brew',
                "current OS not detected without override")
        S.cover('no override')
        return
    if name == 'osx':
        if version is None or version == 'x':
            S.check(how == 'ok' and ic.get_os_tuple() == ('osx', 'x'),
                    "valid override refused")
        else:
            S.check(how == 'exc', "unknown version accepted")
        return
    if name != 'ubuntu':
        S.check(how == 'exc' and isinstance(ic, UnsupportedOSError),
                "override with an unknown OS is not refused as unsupported")
        S.cover('unknown os')
        return
    if version is None:
        if fails:
            S.check(how == 'exc' and
                    isinstance(ic, UnsupportedOSVersionError),
                    "override without version accepted although the version "
                    "cannot be detected")
            S.cover('undetectable')
            return
        want = actual
        S.cover('detected')
    else:
        ok = False
        for v in known:
            if v == version:
                ok = True
        if not ok:
            S.check(how == 'exc' and
                    isinstance(ic, UnsupportedOSVersionError),
                    "override with an unknown version is not refused")
            S.cover('unknown version')
            return
        want = version
        S.cover('known')
    S.check(how == 'ok', "valid override refused")
    os = ic.get_os()
    S.check(ic.get_os_tuple() == ('ubuntu', want) and
            ic.get_os_string() == 'ubuntu:' + want,
            "overridden OS has another name or version than requested")
    S.check(ic.get_default_installer_name() == default and
            os.get_core_installers(want, os.options) == core and
            os.all_names == ['ubuntu', 'debian'] and os.is_os() and
            os.known_versions == known,
            "overridden OS does not behave like that OS")
    S.check(os.options.features == [feature], "OS options not passed on")


@harness('C25', bounds="up to n overrides or detections one after the other "
         "on the same object, of two OSs with two known versions each, "
         "valid or not, with or without version",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['overridden', 'detected', 'refused', 'changed'])
def overrides_one_after_the_other(S, n):
    from xylem.os_support import OSSupport
    from xylem.os_support import UnsupportedOSError, UnsupportedOSVersionError
    actual = {'osx': 'b', 'ubuntu': S.pick('version', ['u', 'w', 'new'])}
    install_os_plugins([
        fake_os(x, actual[x], 'inst-' + x, ['core-' + x], known, [],
                x == 'ubuntu')
        for x, known in (('ubuntu', ['u', 'w']), ('osx', ['a', 'b']))])
    support = OSSupport()
    current = ('ubuntu', actual['ubuntu'])
    seen = []
    for _ in range(n):
        if S.bool('detect'):
            support.detect_os()
            current = ('ubuntu', actual['ubuntu'])
            S.cover('detected')
        else:
            name = S.pick('os', ['ubuntu', 'osx', 'beos', 'Ubuntu'])
            version = S.pick('to', [None, 'u', 'w', 'a', 'U', 'u '])
            how, e = attempt(support.override_os, (name, version))
            valid = version in (None, 'a') if name == 'osx' else \
                name == 'ubuntu' and version in (None, 'u', 'w')
            S.check((how == 'ok') == valid, "valid override refused or "
                    "invalid one accepted")
            if valid:
                new = (name, actual[name] if version is None else version)
                if new != current:
                    S.cover('changed')
                current = new
                S.cover('overridden')
            else:
                S.check(isinstance(e, (UnsupportedOSError,
                                       UnsupportedOSVersionError)),
                        "invalid override is another error")
                S.cover('refused')
        seen.append((support.current_os, current))
    S.log('current', current)
    for os, want in seen:
        S.check(os.get_tuple() == want and os.get_version() == want[1] and
                os.name == want[0], "OS is not the one selected last, or one "
                "selected earlier has changed")
        S.check(os.default_installer == 'inst-' + want[0] and
                os.get_core_installers(want[1], {}) == ['core-' + want[0]],
                "OS has the installers of another one")
        for v in ('u', 'a', 'zzz', None):
            S.check(os.get_all_tuples(v) == [(want[0], v)],
                    "wrong version of the OS it derives from")
    S.check(support.lookup_os('ubuntu').get_version() == actual['ubuntu'] and
            support.lookup_os('osx').get_version() == 'b' and
            sorted(support.os_plugin_names) == ['osx', 'ubuntu'],
            "an override changes the plugins")


@harness('C25', bounds="the options of one of two OSs, overridden or not, set "
         "up to twice to any features, none, something invalid or unknown",
         covers=['default', 'features', 'invalid', 'unknown', 'reset',
                 'overridden'])
def os_options(S):
    from xylem.config_utils import ConfigValueError
    from xylem.os_support import OSSupport
    install_os_plugins([fake_os(n, 'v1', 'a', ['a'], ['v1'],
                                detected=n == 'ubuntu')
                        for n in ('ubuntu', 'osx')])
    support = OSSupport()
    if S.bool('override'):
        S.cover('overridden')
        support.override_os(('ubuntu', 'v1'))
    else:
        support.detect_os()
    os = support.current_os
    want = []
    for _ in range(S.count('settings', 0, 2)):
        kind = S.pick('options', ['nothing', 'null', 'empty', 'features',
                                  'text', 'number', 'unknown'])
        names = [S.name('feature') for _ in range(S.count('n', 1, 2))] \
            if kind == 'features' else []
        how, got = attempt(setattr, os, 'options', {
            'nothing': {}, 'null': {'features': None},
            'empty': {'features': []}, 'features': {'features': names},
            'text': {'features': 'abc'}, 'number': {'features': [5, {}]},
            'unknown': {'featres': ['x']}}[kind])
        if kind in ('text', 'number'):
            S.check(how == 'exc' and isinstance(got, ConfigValueError),
                    "invalid options accepted")
            S.cover('invalid')
            continue
        S.check(how == 'ok', "valid options refused: %r" % (got,))
        S.cover('unknown' if kind == 'unknown' else 'reset' if want and
                not names else 'features')
        want = names
    if want == []:
        S.cover('default')
    S.check(os.options.features == want, "features are not those set last")
    S.check(support.lookup_os('osx').options.features == [],
            "options of one OS affect another")


@harness('C26', bounds="up to n known versions with arbitrary distinct "
         "names; two arbitrary versions to compare; a list "
         "changed afterwards",
         quick=[{'n': 3}], thorough=[{'n': 5}],
         covers=['less', 'not less', 'unknown', 'same', 'from list'])
def order_of_versions(S, n):
    from xylem.os_support import UnsupportedOSVersionError
    versions = [S.name('v') for _ in range(S.count('n', 0, n))]
    distinct(S, versions)
    os = fake_os('ubuntu', 'x', known=versions)()
    less = os.version_less_fn
    if S.bool('from list'):
        from xylem.os_support.os_base import version_order_from_list
        given = list(versions)
        less = version_order_from_list(given)
        S.check(given == versions, "list of versions modified")
        change = S.pick('then', ['reversed', 'cleared', 'extended'])
        if change == 'reversed':
            given.reverse()
        elif change == 'cleared':
            del given[:]
        else:
            given.insert(0, S.name('later'))
        S.cover('from list')
    a, b = S.name('a'), S.name('b')
    how, r = attempt(less, a, b)
    S.log('outcome', [how, r if how == 'ok' else None])
    ia = ib = None
    for i, v in enumerate(versions):
        if v == a:
            ia = i
        if v == b:
            ib = i
    if ia is None or ib is None:
        S.check(how == 'exc' and isinstance(r, UnsupportedOSVersionError),
                "comparison with an unknown version gives an answer")
        S.cover('unknown')
        return
    S.check(how == 'ok' and r == (ia < ib), "order of versions is not that "
            "of the list of known versions")
    S.cover('same' if ia == ib else 'less' if r else 'not less')
    S.check(os.known_versions == versions, "known versions modified")


@harness('C26', bounds="an OS derived in up to n steps from others, each "
         "step mapping versions by a dict with up to two arbitrary entries, "
         "by a function, or not at all; arbitrary version or none",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['mapped', 'not in mapping', 'function', 'unmapped', 'none'])
def versions_of_the_parent_os(S, n):
    from xylem.os_support.plugins import _OSDetecorBase
    steps = []
    for i in range(S.count('n', 1, n)):
        kind = S.pick('mapping', ['none', 'dict', 'function'])
        m = None
        if kind == 'dict':
            m = {}
            for _ in range(S.count('entries', 0, 2)):
                k = S.name('from')
                for o in m:
                    S.assume(o != k)
                m[k] = S.pick('to', ['x%d' % i, 'y%d' % i, None])
        elif kind == 'function':
            m = lambda v, i=i: 'f%d-%s' % (i, v)
        steps.append(m)
    names = ['os%d' % i for i in range(len(steps) + 1)]

    class Derived(_OSDetecorBase):
        def __init__(self):
            super(Derived, self).__init__()
            self._prepend_name(names[-1])
            for i in range(len(steps) - 1, -1, -1):
                self._prepend_name(names[i], steps[i])
    os = Derived()
    v = None if S.bool('no version') else S.name('version')
    before = clone(steps)
    for again in range(2):
        got = os.get_all_tuples(v)
        S.log('tuples', got)
        want = [(names[0], v)]
        for i, m in enumerate(steps):
            cur = want[-1][1]
            new = None
            if cur is None:
                S.cover('none')
            elif m is None:
                S.cover('unmapped')
            elif isinstance(m, dict):
                hit = False
                for k, x in m.items():
                    if k == cur:
                        new = x
                        hit = True
                S.cover('mapped' if hit else 'not in mapping')
            else:
                new = 'f%d-%s' % (i, cur)
                S.cover('function')
            want.append((names[i + 1], new))
        S.check(got == want, "versions of the OSs it derives from are not "
                "the mapped ones")
    S.check([clone(m) for m in steps] == before, "mapping modified")
    S.check(os.name == names[0] and os.all_names == names,
            "names of the OS are wrong")


BUILTIN = {'debian': ['debian'], 'ubuntu': ['ubuntu', 'debian'],
           'xubuntu': ['xubuntu', 'ubuntu', 'debian'], 'osx': ['osx']}


@harness('C26', bounds="the four shipped OSs, arbitrary current version, "
         "known or not, arbitrary pair of their known versions",
         covers=sorted(BUILTIN) + ['unknown version'])
def shipped_operating_systems(S):
    from xylem.os_support import OSSupport, UnsupportedOSVersionError
    env.set_entry_points('xylem.os', None)
    support = OSSupport()
    S.check(sorted(support.os_plugin_names) == sorted(BUILTIN),
            "shipped OSs are not available")
    which = S.pick('os', sorted(BUILTIN))
    os = support.lookup_os(which)
    S.cover(which)
    S.check(os.name == which and os.all_names == BUILTIN[which],
            "OS is not derived from the right ones")
    known = os.known_versions
    S.check(len(known) > 0 and len(set(known)) == len(known),
            "known versions are repeated")
    a = S.pick('a', known)
    b = S.pick('b', known)
    less = os.version_less_fn
    S.check(less(a, b) == (known.index(a) < known.index(b)),
            "wrong order of versions")
    v = S.name('version', extra=[a])
    tuples = os.get_all_tuples(v)
    S.log('tuples', tuples)
    S.check([t[0] for t in tuples] == BUILTIN[which] and
            tuples[0] == (which, v), "tuples are not those of the OS and the "
            "ones it derives from")
    for (n, w) in tuples[1:]:
        S.check(w is None or (which == 'xubuntu' and n == 'ubuntu' and
                              w == v), "version of a derived OS taken for a "
                "version of its parent")
    if which == 'xubuntu':
        S.check(tuples[1] == ('ubuntu', v), "version not mapped to the "
                "parent OS")
    S.check(os.get_all_tuples(None) == [(n, None) for n in BUILTIN[which]],
            "unknown version becomes known in a parent OS")
    how, e = attempt(less, v, a)
    isknown = False
    for k in known:
        if k == v:
            isknown = True
    S.check((how == 'ok') == isknown, "unknown version is ordered")
    if not isknown:
        S.check(isinstance(e, UnsupportedOSVersionError),
                "unknown version not reported as such")
        S.cover('unknown version')
    S.check(os.default_installer in os.get_core_installers(v, os.options),
            "default installer is no core installer")


class StrictVersion(object):
    """Stands in for distutils.version.StrictVersion, which newer Pythons
    provide only with setuptools."""

    def __init__(self, text):
        m = re.match(r'^(\d+)\.(\d+)(\.(\d+))?([ab](\d+))?$', text)
        if m is None:
            raise ValueError('invalid version number')
        self.version = (int(m.group(1)), int(m.group(2)),
                        int(m.group(4) or 0))


def fake_platform(S, dist, mac, uname=None, how='linux_distribution'):
    """What the Python library and programs report about the platform."""
    if how is not None:
        setattr(platform, how, lambda *a, **k: dist)
        S.cleanup(lambda: delattr(platform, how))
    exists = os.path.exists

    def fake_exists(p):
        if p == '/usr/bin/sw_vers':
            return mac is not None
        if p in ('/bin/uname', '/usr/bin/uname'):
            return uname is not None
        if p == '/usr/bin/cygwin1.dll' or p.startswith('/etc/'):
            return False
        return exists(p)
    env.patch(os.path, 'exists', fake_exists)

    def process(cmd):
        if cmd == ['/usr/bin/sw_vers', '-productVersion']:
            return 0, mac + '\n', ''
        if os.path.basename(cmd[0]) == 'uname':
            return 0, uname[cmd[1:] == ['-r']] + '\n', ''
        raise OSError(2, 'not found')
    env.ST.process = process
    d, v = types.ModuleType('distutils'), types.ModuleType('distutils.version')
    v.StrictVersion = StrictVersion
    d.version = v
    for name, m in (('distutils', d), ('distutils.version', v)):
        S.cleanup(lambda name=name, old=sys.modules.get(name):
                  restore_module(name, old))
        sys.modules[name] = m


def restore_module(name, old):
    if old is None:
        sys.modules.pop(name, None)
    else:
        sys.modules[name] = old


CODENAMES = ['tiger', 'leopard', 'snow', 'lion', 'mountain lion',
             'mavericks', 'yosemite']


@harness('C44', bounds="any distribution reported by Python's platform "
         "module in either of two ways or not at all, with arbitrary name, "
         "version and codename; OS X of any version 9.x to 11.x, malformed "
         "version or no OS X",
         covers=['linux', 'osx', 'none', 'new osx', 'malformed'],
         history=False)     # the system does not change within a process
def shipped_oss_are_detected(S):
    how = S.pick('reported by', ['linux_distribution', 'dist', None])
    mac = None
    if S.bool('mac'):
        how = None
        major, minor = S.count('major', 9, 11), S.count('minor', 0, 12)
        mac = '%d.%d' % (major, minor)
        form = S.pick('form', ['', '.3', 'bad', ' x', '.x', '.1.2', '.'])
        mac = {'bad': 'bad'}.get(form, mac + form)
    name = S.name('distribution', extra=['Ubuntu', 'debian', 'Xubuntu',
                                         'LinuxMint', 'ubuntu'])
    version, codename = S.name('version'), S.name('codename')
    fake_platform(S, (name, version, codename), mac, None, how)
    env.set_entry_points('xylem.os', None)
    from xylem.os_support import (OSSupport, UnsupportedOSError,
                                  UnsupportedOSVersionError)
    support = OSSupport()
    result, os_ = attempt(lambda: support.current_os)
    S.log('os', getattr(os_, 'name', None))
    want = None
    for a, b in (('Ubuntu', 'ubuntu'), ('debian', 'debian'),
                 ('Xubuntu', 'xubuntu')):
        if how is not None and name == a:
            want = b
    if mac is not None:
        want = 'osx'
    if want is None:
        S.check(result == 'exc' and isinstance(os_, UnsupportedOSError),
                "unsupported OS detected")
        S.cover('none')
        return
    S.check(result == 'ok' and os_.name == want, "wrong OS detected")
    result, v = attempt(os_.get_tuple)
    if want != 'osx':
        S.check(result == 'ok' and v == (want, codename),
                "version of the OS is not its codename")
        S.cover('linux')
        return
    S.log('version', [result, v if result == 'ok' else type(v).__name__])
    if form not in ('', '.3') or major != 10 or not 4 <= minor <= 10:
        S.check(result == 'exc' and isinstance(v, UnsupportedOSVersionError),
                "unknown version of OS X not reported as such")
        S.cover('malformed' if form not in ('', '.3') else 'new osx')
        return
    S.cover('osx')
    S.check(result == 'ok' and v == ('osx', CODENAMES[minor - 4]),
            "wrong codename of OS X")


RELEASES = {
    'fedora': 'Fedora release {v} ({C})',
    'rhel': 'Red Hat Enterprise Linux Server release {v} ({C})',
    'gentoo': 'Gentoo Base System release {v}',
    'opensuse': 'openSUSE\nVERSION = {v}',
    'arch': '',
    'other': 'Some other OS release {v} ({C})',
    'mentions fedora': 'Korora release {v} based on Fedora release {v} ({C})',
    'mentions rhel': 'CentOS release {v} for Red Hat Enterprise Linux ({C})',
    'mentions gentoo': 'Sabayon Gentoo Base System release {v}',
    'mentions opensuse': 'Linux Kamarada openSUSE\nVERSION = {v}'}


@harness('C44', bounds="the detectors for Fedora, RHEL, Gentoo, openSUSE, "
         "Arch, FreeBSD and QNX, each with the release file or program "
         "output of any of them, or none; arbitrary version and codename",
         covers=['detected', 'not detected'],
         history=False)     # the system does not change within a process
def other_detectors(S):
    fake_platform(S, None, None, None, None)
    from xylem.os_support import os_detect as D
    which = S.pick('detector', ['fedora', 'rhel', 'gentoo', 'opensuse',
                                'arch', 'freebsd', 'qnx'])
    actual = S.pick('actual', [
        x for x in sorted(RELEASES) if not x.startswith('mentions') or
        x.endswith(which)] + ['freebsd', 'qnx', 'none'])
    v, c = S.name('version'), S.name('codename')
    base = env.scratch()
    path = os.path.join(base, 'release')
    brand = os.path.join(base, 'brand')
    if which in ('freebsd', 'qnx'):
        uname = os.path.join(base, 'uname')
        if actual in ('freebsd', 'qnx', 'other'):
            with open(uname, 'w') as f:
                f.write('')
            kernel = {'freebsd': 'FreeBSD', 'qnx': 'QNX'}.get(actual, 'Linux')

            def process(cmd):
                return 0, (v if cmd[1:] == ['-r'] else kernel) + '\n', ''
            env.ST.process = process
        d = {'freebsd': D.FreeBSD, 'qnx': D.QNX}[which](uname)
    else:
        if actual in RELEASES and (which == 'arch') == (actual == 'arch'):
            with open(path, 'w') as f:
                f.write(RELEASES[actual].replace('{v}', v)
                        .replace('{C}', c) + '\n')
            with open(brand, 'w') as f:
                f.write('openSUSE ' + v + '\nCODENAME = ' + c + '\n')
        d = {'fedora': lambda: D.Fedora(path, path),
             'rhel': lambda: D.Rhel(path), 'arch': lambda: D.Arch(path),
             'gentoo': lambda: D.Gentoo(path),
             'opensuse': lambda: D.OpenSuse(path, brand)}[which]()
    got = bool(d.is_os())
    S.check(got == (which == actual), "OS taken for another one")
    h1, version = attempt(d.get_version)
    h2, code = attempt(d.get_codename)
    S.log('detected', [h1, h2])
    if not got:
        S.check(h1 == h2 == 'exc' and isinstance(version, D.OsNotDetected) and
                isinstance(code, D.OsNotDetected), "version of another OS")
        S.cover('not detected')
        return
    S.cover('detected')
    S.check(h1 == 'ok' and version == ('' if which == 'arch' else v),
            "wrong version")
    S.check(h2 == 'ok' and code == {'fedora': c.lower(), 'rhel': c.lower(),
                                    'opensuse': c}.get(which, ''),
            "wrong codename")


@harness('C44', bounds="up to n detectors of three names handed to the "
         "constructor, registered as default or added later, each accepting "
         "the current OS or not; asked for any name, its own or an unknown "
         "one, in any order of the questions",
         quick=[{'n': 3}], thorough=[{'n': 4}],
         covers=['detected', 'not detected', 'overridden', 'unknown name'])
def detectors_in_order(S, n):
    fake_platform(S, None, None, None, None)
    from xylem.os_support import os_detect as D

    class Detector(object):
        def __init__(self, i):
            self.i = i
            self.here = S.bool('accepts')

        def is_os(self):
            return self.here

        def get_version(self):
            return 'v%d' % self.i

        def get_codename(self):
            return 'c%d' % self.i

    mine = []       # what applies to the instance, first the most important
    defaults = list(D.OsDetect.default_os_list)
    # one of the systems known anyway may get another detector
    names = [S.pick('first name', ['a', defaults[0][0], defaults[-1][0]]),
             'b', 'c']
    env.patch(D.OsDetect, 'default_os_list', list(defaults))
    how = S.pick('how', ['given', 'default', 'added'])
    made = [(S.pick('name', names[:max(1, min(3, i + 1))]), Detector(i))
            for i in range(S.count('n', 0, n))]
    if how == 'given':
        o = D.OsDetect(list(made))
        mine = list(made)
    elif how == 'default':
        for x, d in made:
            D.OsDetect.register_default(x, d)
        o = D.OsDetect()
        mine = made[::-1] + defaults
    else:
        o = D.OsDetect()
        for x, d in made:
            o.add_detector(x, d)
        mine = made[::-1] + defaults
        other = D.OsDetect()
        for x in names:
            r, d = attempt(lambda: other.get_detector(x))
            S.check(r == 'exc' and isinstance(d, KeyError) or
                    d in [e for y, e in defaults if y == x],
                    "detector added to another instance is used")
    accepting = [(x, d) for x, d in mine if d.is_os()]
    # which one wins where several names accept is not specified
    S.assume(len({x for x, _ in accepting}) <= 1)
    over = S.pick('override', [None, 1, 2, 3]) if not made else None
    environ = {}
    if over:
        parts = [S.name('o%d' % i) for i in range(over)]
        for p in parts:
            S.assume(':' not in p)
        environ['ROS_OS_OVERRIDE'] = ':'.join(parts)
        want = tuple(parts + ['', ''])[:3]
    elif accepting:
        x, d = accepting[0]
        want = (x, d.get_version(), d.get_codename())
    else:
        want = None
    env.patch(os, 'environ', environ)
    asked = [S.pick('ask', ['all', 'name', 'version', 'codename',
                            'detector', 'detector of'])]
    if asked[0] != 'all':
        asked.append(S.pick('then', ['all', 'name', 'detector']))
    for q in asked:
        if q == 'detector of':
            x = S.pick('which', names + ['zz'])
            r, d = attempt(lambda: o.get_detector(x))
            first = [e for y, e in mine if y == x]
            if first:
                S.check(r == 'ok' and d is first[0],
                        "detector of the name is not the latest one")
            else:
                S.check(r == 'exc' and isinstance(d, KeyError),
                        "unknown detector is not refused")
                S.cover('unknown name')
            continue
        if q == 'detector':
            if over:
                continue
            r, d = attempt(o.get_detector)
            if want is None:
                S.check(r == 'exc' and isinstance(d, D.OsNotDetected),
                        "OS without detector detected")
            else:
                S.check(r == 'ok' and d is accepting[0][1],
                        "detector of the current OS is another one")
            continue
        r, v = attempt({'all': o.detect_os, 'name': o.get_name,
                        'version': o.get_version,
                        'codename': o.get_codename}[q])
        if want is None:
            S.check(r == 'exc' and isinstance(v, D.OsNotDetected),
                    "OS without detector detected")
            S.cover('not detected')
        else:
            k = {'all': slice(0, 3), 'name': 0, 'version': 1, 'codename': 2}
            S.check(r == 'ok' and v == want[k[q]], "wrong OS detected")
            S.cover('overridden' if over else 'detected')
    r, v = attempt(lambda: o.detect_os(env={'ROS_OS_OVERRIDE': 'x:y:z'}))
    S.check(r == 'ok' and v == ('x', 'y', 'z'), "override not honoured")


@harness('C44', bounds="the detectors for Windows and Cygwin on either, "
         "both or none, with arbitrary version and release",
         covers=['windows', 'cygwin', 'neither'],
         history=False)     # the system does not change within a process
def windows_detectors(S):
    fake_platform(S, None, None, None, None)
    from xylem.os_support import os_detect as D
    system = S.pick('system', ['Windows', 'Linux', 'CYGWIN_NT'])
    dll = S.bool('dll')
    version, release = S.name('version'), S.name('release')
    exists = os.path.exists
    env.patch(os.path, 'exists', lambda p: dll if p == '/usr/bin/cygwin1.dll'
              else exists(p))
    env.patch(platform, 'system', lambda: system)
    env.patch(platform, 'version', lambda: version)
    env.patch(platform, 'release', lambda: release)

    def process(cmd):
        if os.path.basename(cmd[0]) == 'uname' and cmd[1:] == ['-r']:
            return 0, release + '\n', ''
        raise OSError(2, 'not found')
    env.ST.process = process
    for d, here, v, c in ((D.Windows(), system == 'Windows', version,
                           release), (D.Cygwin(), dll, release, '')):
        S.check(bool(d.is_os()) == here, "OS taken for another one")
        h1, got = attempt(d.get_version)
        h2, code = attempt(d.get_codename)
        if here:
            S.check((h1, h2) == ('ok', 'ok') and got == v and code == c,
                    "wrong version or codename")
            S.cover('windows' if c == release else 'cygwin')
        else:
            S.check(h1 == h2 == 'exc' and isinstance(got, D.OsNotDetected) and
                    isinstance(code, D.OsNotDetected),
                    "version of another OS")
            S.cover('neither')


# what the files of a machine contain, by what runs on it
MACHINES = {
    'fedora': {'/etc/redhat-release': 'Fedora release {v} ({C})',
               '/etc/issue': 'Fedora release {v} ({C})'},
    'rhel': {'/etc/redhat-release':
             'Red Hat Enterprise Linux Server release {v} ({C})'},
    'gentoo': {'/etc/gentoo-release': 'Gentoo Base System release {v}'},
    'opensuse': {'/etc/SuSE-brand': 'openSUSE\nVERSION = {v}',
                 '/etc/SuSE-release': 'openSUSE {v}\nCODENAME = {c}'},
    'arch': {'/etc/arch-release': ''},
    'osx': {'/usr/bin/sw_vers': ''},
    'freebsd': {'/usr/bin/uname': ''}, 'qnx': {'/bin/uname': ''},
    'cygwin': {'/usr/bin/cygwin1.dll': ''},
    'windows': {}, 'none': {'/bin/uname': '', '/usr/bin/uname': '',
                            '/etc/issue': 'Other Base 1.0 release {v}'},
    'ubuntu': {'/etc/issue': 'Ubuntu {v}', '/bin/uname': ''},
    'debian': {'/etc/issue': 'Debian {v}', '/bin/uname': ''},
    'mint': {'/etc/issue': 'Mint {v}', '/usr/bin/uname': ''},
    'xubuntu': {},
}
LSB = {'ubuntu': 'Ubuntu', 'debian': 'debian', 'mint': 'LinuxMint',
       'xubuntu': 'Xubuntu', 'none': 'Other'}


@harness('C44', bounds="a machine running any of the 14 known systems or "
         "another one, with arbitrary version and codename, as the files "
         "and programs in their usual places and the platform module tell; "
         "asked by name or not",
         covers=['release file', 'lsb', 'program', 'other'],
         history=False)     # the system does not change within a process
def machines_are_recognised(S):
    actual = S.pick('actual', sorted(MACHINES))
    v, c = S.name('version'), S.name('codename')
    files = MACHINES[actual]
    root = env.scratch()
    places = ('/etc/', '/usr/bin/', '/bin/')

    def real(p):
        if isinstance(p, str) and p.startswith(places):
            return root + p
        return p
    for p in sorted(files):
        d = os.path.dirname(root + p)
        if not os.path.isdir(d):
            os.makedirs(d)
        with open(root + p, 'w') as f:
            f.write(files[p].replace('{v}', v).replace('{C}', c)
                    .replace('{c}', c) + '\n')
    if actual in LSB:
        platform.dist = lambda *a, **k: (LSB[actual], v, c)
        S.cleanup(lambda: delattr(platform, 'dist'))
    env.patch(platform, 'system',
              lambda: 'Windows' if actual == 'windows' else 'Linux')
    env.patch(platform, 'version', lambda: v)
    env.patch(platform, 'release', lambda: c)
    kernel = {'freebsd': 'FreeBSD', 'qnx': 'QNX'}.get(actual, 'Linux')

    def process(cmd):
        name = os.path.basename(cmd[0])
        if name == 'sw_vers' and '/usr/bin/sw_vers' in files:
            return 0, '10.9.1\n', ''
        if name == 'uname':
            return 0, (v if cmd[1:] == ['-r'] else kernel) + '\n', ''
        raise OSError(2, 'not found')
    env.ST.process = process
    d, m = types.ModuleType('distutils'), types.ModuleType('distutils.version')
    m.StrictVersion = StrictVersion
    d.version = m
    for name, mod in (('distutils', d), ('distutils.version', m)):
        S.cleanup(lambda name=name, old=sys.modules.get(name):
                  restore_module(name, old))
        sys.modules[name] = mod
    from xylem.os_support import os_detect as D
    for f in ('exists', 'isfile'):
        env.patch(os.path, f, lambda p, g=getattr(os.path, f): g(real(p)))
    env.patch(builtins, 'open',
              lambda p, *a, g=open, **k: g(real(p), *a, **k))
    detect = D.OsDetect()
    how, got = attempt(detect.detect_os)
    S.log('detected', [how, list(got) if how == 'ok' else None])
    if actual == 'none':
        S.check(how == 'exc' and isinstance(got, D.OsNotDetected),
                "unknown system taken for a known one")
        S.cover('other')
        return
    want = (actual, v, c)
    if actual in ('fedora', 'rhel'):
        want = (actual, v, c.lower())
    elif actual in ('gentoo', 'freebsd', 'qnx', 'cygwin'):
        want = (actual, v, '')
    elif actual == 'arch':
        want = (actual, '', '')
    elif actual == 'osx':
        want = (actual, '10.9.1', 'mavericks')
    S.check(how == 'ok' and tuple(got) == want, "system not recognised")
    for name in sorted(MACHINES):
        if name != 'none':
            d = detect.get_detector(name)
            S.check(bool(d.is_os()) == (name == actual),
                    "detector of another system")
    S.cover('lsb' if actual in LSB else 'program' if actual in
            ('osx', 'freebsd', 'qnx', 'windows', 'cygwin')
            else 'release file')
