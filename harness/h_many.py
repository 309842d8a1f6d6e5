"""Properties at sizes well beyond those of the other harnesses.

What matters is at a place up to the solver; the rest is plain.
"""

import os

import env
from symx.hapi import harness
from lib import attempt, fake_installer, make_ic, plugin
from h_commands import Machine, any_os
from h_merge import Database


@harness('C05', bounds="n sources, two of them at any of four places with "
         "rules of arbitrary packages for one key, the others for keys of "
         "their own", quick=[{'n': 40}], thorough=[{'n': 300}],
         covers=['first wins', 'other installer'])
def many_sources(S, n):
    rules = [{'k%d' % i: any_os({'apt': {'packages': ['p%d' % i]}})}
             for i in range(n)]
    places = [0, n // 2, n - 2, n - 1]
    a, b = S.pick('first', places[:3]), S.pick('second', places[1:])
    S.assume(a < b)
    x, y = S.name('x'), S.name('y')
    inst = S.pick('installer', ['apt', 'pip'])
    rules[a]['key'] = any_os({'apt': {'packages': [x]}})
    rules[b]['key'] = any_os({inst: {'packages': [y]}})
    db = Database(S, rules).db
    db.load_from_source()
    ic = make_ic('ubuntu', 'v1', 'apt')
    want = {'apt': {'packages': [x]}}
    if inst == 'pip':
        want['pip'] = {'packages': [y]}
        S.cover('other installer')
    else:
        S.cover('first wins')
    S.check(db.lookup('key', ic) == want, "lookup does not prefer the first "
            "source providing a rule for an installer")
    for i in (a, b, n - 1):
        S.check(db.lookup('k%d' % i, ic) == {
            'apt': {'packages': ['p%d' % i]}}, "rules of a source not found")


@harness('C10', bounds="two sources with n keys each, a key of an arbitrary "
         "name in one of them, rules for the current or another OS",
         quick=[{'n': 1100}], thorough=[{'n': 5000}], history=False,
         covers=['listed', 'not listed'])
def many_keys_are_listed(S, n):
    from xylem.sources.database import RulesSource
    db = Database(S, [{}, {}]).db
    db.load_from_source()
    for j, s in enumerate(db.sources):
        s.data = {'k%d-%d' % (j, i): any_os({'apt': {'packages': ['p']}})
                  for i in range(n)}
    here = S.bool('here')
    where = S.pick('source', [0, 1])
    db.sources[where].data['key'] = {'ubuntu' if here else 'debian': {
        'any_version': {'apt': {'packages': [S.name('p')]}}}}
    got = db.keys(make_ic('ubuntu', 'v1', 'apt'))
    S.check(len(got) == 2 * n + (1 if here else 0) and
            len(set(got)) == len(got), "not exactly the keys with rules are "
            "listed")
    S.check(('key' in got) == here, "key listed without rules or not listed")
    S.cover('listed' if here else 'not listed')


@harness('C28', bounds="n requested keys, one of them at any of four places "
         "without rules, with an invalid one or requested again",
         quick=[{'n': 60}], thorough=[{'n': 500}],
         covers=['fine', 'no rule', 'invalid', 'repeated'])
def many_requested_keys(S, n):
    from xylem.config import get_default_config
    from xylem.installers import InstallerError
    from xylem.resolve import resolve
    keys = ['k%d' % i for i in range(n)]
    p = S.name('p')
    S.assume(p != 'bad')
    place = S.pick('place', [0, n // 2, n - 2, n - 1])
    what = S.pick('what', ['fine', 'no rule', 'invalid', 'repeated'])
    S.cover(what)
    rules = {k: any_os({'a': {'packages': [p]}}) for k in keys}
    errors = []
    if what == 'no rule':
        del rules[keys[place]]
        errors = [keys[place]]
    elif what == 'invalid':
        rules[keys[place]] = any_os({'a': {'packages': ['bad']}})
        errors = [keys[place]]

    def rule_error(rule):
        if rule['packages'] == ['bad']:
            raise InstallerError('bad rule')
    ic = make_ic('ubuntu', 'v', 'a', ['a'], [
        fake_installer('a', rule_error=rule_error)], get_default_config())
    db = Database(S, [rules]).db
    db.load_from_source()
    asked = keys + [keys[place]] if what == 'repeated' else keys
    res, errs = resolve(asked, config=get_default_config(), database=db,
                        installer_context=ic)
    S.check([k for k, _ in errs] == errors, "not exactly the keys that "
            "cannot be resolved are reported")
    S.check([k for k, _ in res] == [k for k in keys if k not in errors],
            "a key is neither resolved nor reported")
    for k, (inst, resolutions) in res:
        S.check(inst == 'a' and [r.package for r in resolutions] == [p],
                "key resolved to something else")


@harness('C35', bounds="n packages to install, one of them at any of four "
         "places not found installed afterwards or failing to install, with "
         "a command for each or one for all",
         quick=[{'n': 40}], thorough=[{'n': 300}],
         covers=['fine', 'undetected', 'failed', 'one command'])
def many_packages(S, n):
    from xylem.config import get_default_config
    from xylem.install import install
    place = S.pick('place', [0, n // 2, n - 2, n - 1])
    what = S.pick('what', ['fine', 'undetected', 'failed'])
    S.cover(what)
    one = S.bool('one command')
    if one:
        S.cover('one command')
    pkgs = ['p%d' % i for i in range(n)]
    keep = S.bool('continue')
    run = []

    def process(cmd):
        run.append(cmd)
        return (1 if what == 'failed' and pkgs[place] in cmd else 0), '', ''
    env.ST.process = process

    def uninstalled(p):
        return not run or what == 'undetected' and p == pkgs[place]
    ic = make_ic('ubuntu', 'v', 'a', ['a'], [fake_installer(
        'a', uninstalled=uninstalled,
        commands=lambda ps: [['i'] + list(ps)] if one else
        [['i', p] for p in ps])], get_default_config())
    rules = {'k%d' % i: any_os({'a': {'packages': [pkgs[i]]}})
             for i in range(n)}
    db = Database(S, [rules]).db
    db.load_from_source()
    errors, failures = install(['k%d' % i for i in range(n)],
                               config=get_default_config(), database=db,
                               installer_context=ic, continue_on_error=keep)
    S.check(errors == [], "a key is not resolved")
    S.check((len(failures) > 0) == (what != 'fine'),
            "installation succeeds although a package is missing, or the "
            "other way around")
    all_of_them = what != 'failed' or keep or one
    S.check([p for c in run for p in c[1:]] ==
            (pkgs if all_of_them else pkgs[:place + 1]),
            "not all packages are installed in order")


@harness('C39', bounds="simulated installation of n packages, one of them "
         "with an arbitrary name, with a command for each",
         quick=[{'n': 40}], thorough=[{'n': 300}], covers=['shown'])
def many_commands_are_shown(S, n):
    place = S.pick('place', [0, n // 2, n - 2, n - 1])
    pkgs = ['p%d' % i for i in range(n)]
    pkgs[place] = S.name('p')
    m = Machine(S, [{'k%d' % i: any_os({'a': {'packages': [pkgs[i]]}})
                     for i in range(n)}])
    S.check(m.run('update', '--prefix', m.prefix)[0] == 0, "updating fails")
    code, out, err = m.run('install', '--prefix', m.prefix, '--dry-run',
                           '--no-color', *['k%d' % i for i in range(n)])
    S.check(code in (0, None, 'returned'), "dry run fails")
    lines = out.split('\n')
    shown = [x.strip(' ') for x in lines if 'install p' in x or
             pkgs[place] in x]
    S.check(len(shown) >= n, "commands are not shown")
    want = [('a install ' + p) for p in pkgs]
    shown = [x[x.find('a install '):] if x.find('a install ') >= 0 else x
             for x in shown]
    S.check([x for x in shown if x in want] == want,
            "not exactly the commands are shown")
    S.cover('shown')


@harness('C43', bounds="lists of n items, one of them at any of four places "
         "the same as another one or of arbitrary name; texts of n lines",
         quick=[{'n': 100}], thorough=[{'n': 3000}], history=False,
         covers=['same', 'different'])
def many_items(S, n):
    from xylem.util import remove_duplicates, indent
    places = [0, n // 2, n - 2, n - 1]
    items = ['i%d' % (n - i) for i in range(n)]
    i = S.pick('place', places)
    if S.bool('same'):
        j = S.pick('other', places)
        S.assume(i != j)
        items[i] = items[j]
        want = items[:max(i, j)] + items[max(i, j) + 1:]
        S.cover('same')
    else:
        x = S.name('x')
        for y in places:
            S.assume(x != items[y])
        S.assume(x.find('i') < 0)
        items[i] = x
        want = list(items)
        S.cover('different')
    S.check(remove_duplicates(iter(items)) == want,
            "duplicates not removed, or the order changed")
    w = S.int('width', 0, 3)
    text = '\n'.join(items)
    S.check(indent(text, w) == '\n'.join([' ' * w + x for x in items]),
            "lines not indented by the width")


@harness('C34', bounds="n plugins, one of them at any of four places fine, "
         "invalid, disabled or with the name of another one",
         quick=[{'n': 50}], thorough=[{'n': 500}],
         covers=['fine', 'invalid', 'disabled', 'duplicate'])
def many_plugins(S, n):
    from xylem.installers.impl import load_installer_plugins
    places = [0, n // 2, n - 2, n - 1]
    place, other = S.pick('place', places), S.pick('other', places)
    S.assume(place != other)
    what = S.pick('what', ['fine', 'invalid', 'disabled', 'duplicate'])
    S.cover(what)
    names = ['n%d' % i for i in range(n)]
    if what == 'duplicate':
        names[place] = names[other]
    defs = [plugin('installer', fake_installer(x), 'p%d' % i)
            for i, x in enumerate(names)]
    if what == 'invalid':
        defs[place]['description'] = None
    env.set_entry_points('xylem.installers', [
        ('e%d' % i, d) for i, d in enumerate(defs)])
    got = load_installer_plugins(
        ['x%d' % i for i in range(n)] +
        (['p%d' % place] if what == 'disabled' else []))
    want = list(names)
    if what == 'duplicate':
        del want[max(place, other)]
    elif what != 'fine':
        del want[place]
    S.check([i.name for i in got] == want, "not exactly the valid enabled "
            "plugins are loaded, each name once")


@harness('C07', bounds="lists and dicts of n texts and texts of n words, "
         "occurring once or twice, an arbitrary name at any of four places",
         quick=[{'n': 60}], thorough=[{'n': 400}], history=False,
         covers=['list', 'dict', 'text'])
def long_structures(S, n):
    from xylem.yaml_utils import dump_yaml, load_yaml
    x = S.name('x')
    place = S.pick('place', [0, n // 2, n - 2, n - 1])
    words = ['package-%d' % i for i in range(n)]
    words[place] = x
    kind = S.pick('kind', ['list', 'dict', 'text'])
    S.cover(kind)
    v = {'list': words, 'dict': {'k%d' % i: w for i, w in enumerate(words)},
         'text': S.pick('between', [' ', '  ', '\n', ', ', ': ', '-']).join(
             words)}[kind]
    top = S.pick('within', ['itself', 'twice', 'deep'])
    if top == 'twice':
        v = {'a': v, 'b': [v]}
    elif top == 'deep':
        for i in range(12):
            v = {'d%d' % i: v} if i % 2 else [v]
    text = dump_yaml(v)
    S.check('&id0' not in text and '*id0' not in text,
            "parts occurring twice are not written in full")
    how, back = attempt(load_yaml, text)
    S.check(how == 'ok' and back == v, "YAML written reads back as something "
            "else")


@harness('C19', bounds="lists and dicts of n entries in a file or on the "
         "command line, an arbitrary name at any of four places",
         quick=[{'n': 60}], thorough=[{'n': 400}], history=False,
         covers=['file', 'command line'])
def long_values(S, n):
    from h_config import World, load
    w = World(S)
    x = S.name('x')
    place = S.pick('place', [0, n // 2, n - 2, n - 1])
    items = ['i%d' % i for i in range(n)]
    items[place] = x
    kind = S.pick('kind', ['list', 'dict'])
    argv = ['--prefix', w.prefix]
    quoted = ["'%s'" % i for i in items]
    if kind == 'list':
        text = '[' + ', '.join(quoted) + ']'
        name = 'core_installers'
        want = items
    else:
        text = '{' + ', '.join('k%d: [%s]' % (i, y)
                               for i, y in enumerate(quoted)) + '}'
        name = 'install_from'
        want = {'k%d' % i: [y] for i, y in enumerate(items)}
    if S.bool('file'):
        w.write(w.user, '%s: %s\n' % (name, text))
        S.cover('file')
    else:
        argv += ['--' + name.replace('_', '-'), text]
        S.cover('command line')
    config = load(argv)
    S.check(config[name] == want, "long value not taken as it is")
