"""The xylem program: commands, their output and exit status."""

import io
import os
import sys

import env
from symx.hapi import harness
from lib import attempt, distinct, clone, fake_os, fake_installer, plugin
from h_merge import Response


class Machine(object):
    """A computer with sources, a fake OS and installers a and b."""

    def __init__(self, S, rules_list, uninstalled=None, commands=None,
                 general=None, prereq=None):
        # the home directory is looked up when the package is loaded
        base = env.scratch()
        assert env.ST.place == base or \
            'xylem.config_utils' not in sys.modules
        self.prefix = os.path.join(base, 'pre')
        os.environ['HOME'] = os.path.join(base, 'home')
        sdir = os.path.join(self.prefix, 'etc', 'xylem', 'sources.d')
        os.makedirs(sdir)
        os.makedirs(os.environ['HOME'])
        os.chdir(base)
        from xylem.yaml_utils import dump_yaml
        self.urls = {}
        for i, r in enumerate(rules_list):
            url = 'http://host/%d.yaml' % i
            self.urls[url] = dump_yaml(r)
            with open(os.path.join(sdir, '%02d.yaml' % i), 'w') as f:
                f.write('- rules: ' + url + '\n')
        env.ST.url = lambda url, *a, **k: Response(self.urls[url])
        self.log = []
        insts = [fake_installer(x, self.log, additional=x == 'b',
                                uninstalled=uninstalled, commands=commands,
                                general=general, prereq=prereq)
                 for x in ('a', 'b', 'c')]
        env.set_entry_points('xylem.installers', [
            (c, plugin('installer', c, 'p%d' % i))
            for i, c in enumerate(insts)])
        env.set_entry_points('xylem.os', [
            ('u', plugin('os', fake_os('ubuntu', 'v1', 'a', ['a', 'c'],
                                       ['v1', 'v2']), 'u'))])
        env.set_entry_points('xylem.specs', [
            ('rules', 'xylem.specs.plugins.rules:definition')])

    def run(self, *argv):
        """(exit status or exception, standard output, standard error)"""
        from xylem.commands.main import main
        out, err = io.StringIO(), io.StringIO()
        old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = out, err
        code = 'returned'
        try:
            main(list(argv))
        except SystemExit as e:
            code = e.code
        except Exception as e:
            code = e
        finally:
            sys.stdout, sys.stderr = old
        return code, out.getvalue(), err.getvalue()


def any_os(insts):
    return {'any_os': {'any_version': insts}}


@harness('C37', bounds="xylem install for up to n keys, each with a rule for "
         "a core or additional installer or none, in addition or not to all "
         "known keys; packages installed or not before and after; any exit "
         "code of the commands from -1 to 1; every combination of the options",
         quick=[{'n': 1}, {'n': 2, 'few': True}], thorough=[{'n': 2}],
         covers=['unresolved', 'failed', 'undetected', 'success', 'dry run',
                 'nothing to do', 'all', 'reinstall', 'fix', 'continued'])
def status_of_install(S, n, few=False):
    pkgs = [S.name('package') for _ in range(n + 1)]
    distinct(S, pkgs)
    rules, kinds = {}, []
    for i in range(n):
        kind = S.pick('key', ['a', 'b', 'none'])
        kinds.append(kind)
        if kind != 'none':
            rules['k%d' % i] = any_os({kind: {'packages': [pkgs[i]]}})
    rules['more'] = any_os({'a': {'packages': [pkgs[n]]}})
    memo, codes, run, fixes = [], [], [], []

    def uninstalled(p):
        # what is found before and after a package's command was run
        stage = p in run
        for q, s, v in memo:
            if q == p and s == stage:
                return v
        v = S.bool('missing')
        memo.append((p, stage, v))
        return v

    def process(cmd):
        run.append(cmd[-1])
        codes.append(S.int('exit code', -1, 1))
        return codes[-1], '', ''
    env.ST.process = process
    m = Machine(S, [rules], uninstalled,
                prereq=lambda fix: fixes.append(fix))
    S.check(m.run('update', '--prefix', m.prefix)[0] == 0, "updating fails")
    opts = {o: S.bool(o) for o in ('--continue-on-error', '--dry-run')}
    for o in ('--reinstall', '--all', '--fix-prerequisites'):
        opts[o] = False if few else S.bool(o)
    argv = ['install', '--prefix', m.prefix] + [o for o in sorted(opts)
                                                if opts[o]]
    argv += ['k%d' % i for i in range(n)]
    code, out, err = m.run(*argv)
    S.log('outcome', [code, run])
    bad = ['k%d' % i for i in range(n) if kinds[i] == 'none']
    S.check(code in (0, 1), "unexpected exit status")
    for call in m.log:
        if call[0] == 'commands':
            S.check(call[3] == True, "questions of package managers are "   # noqa
                    "answered without being asked to")
            S.check(call[4] == opts['--reinstall'], "reinstalling although "
                    "not requested, or the other way around")
        elif call[0] in ('general', 'prereq'):
            S.check(call[-1] == True, "prerequisites are fixed without "   # noqa
                    "asking")
    for k in bad:
        S.check("'%s'" % k in err, "unresolved key not named")
    want = [pkgs[i] for i in range(n) if kinds[i] != 'none']
    if opts['--all']:
        want.append(pkgs[n])
        S.cover('all')
    for p in run:
        S.check(p in want, "package installed that is not requested")
    if opts['--dry-run']:
        S.check(env.ST.commands == [], "dry run executes commands")
        S.check(code == (1 if bad else 0), "wrong exit status of a dry run")
        S.cover('dry run')
        return
    for f in fixes:
        S.check(f == opts['--fix-prerequisites'], "fixing prerequisites "
                "although not requested, or the other way around")
        if f:
            S.cover('fix')
    if bad:
        S.cover('unresolved')
        S.check(code == 1, "success although a key is not resolved")
        if not opts['--continue-on-error']:
            S.check(run == [], "packages are installed although a key is not "
                    "resolved")
            return
    fails = len([c for c in codes if c != 0])
    missing = []
    todo = []
    for p in want:
        before = [v for q, s, v in memo if q == p and not s]
        after = [v for q, s, v in memo if q == p and s]
        if opts['--reinstall'] or before == [True]:
            todo.append(p)
        if after == [True]:
            missing.append(p)
    if not todo:
        S.cover('nothing to do')
    if opts['--continue-on-error'] or not fails and not missing:
        S.check(sorted(run) == sorted(todo), "not exactly the missing "
                "packages are installed")
        if fails:
            S.cover('continued')
    if opts['--reinstall'] and run:
        S.cover('reinstall')
    S.check(code == (1 if bad or fails or missing else 0),
            "the exit status does not tell whether installing succeeded")
    if fails:
        S.cover('failed')
    if missing:
        S.cover('undetected')
    if code:
        S.check(len(err) > 0, "failure without message")
    else:
        S.cover('success')


@harness('C37', bounds="a command that succeeds, returns any status, exits, "
         "is interrupted or raises a xylem error, internal or not, with up "
         "to two causes and arbitrary messages; debugging or not; next to "
         "an invalid command",
         covers=['success', 'status', 'error', 'internal', 'interrupted',
                 'debug', 'cause'])
def outcome_of_a_command(S):
    m = Machine(S, [])
    from xylem.exception import XylemError, XylemInternalError, raise_from
    kind = S.pick('kind', ['return', 'exit', 'error', 'internal',
                           'interrupt', 'end of file'])
    status = S.pick('status', [None, 0, 1, 2]) if kind in (
        'return', 'exit') else None
    messages = ['<' + S.name('message') + '>'
                for _ in range(S.count('messages', 1, 3))]

    class Mine(XylemError):
        pass

    def failing(types, i):
        if i == len(messages) - 1:
            raise types[i](messages[i])
        try:
            failing(types, i + 1)
        except Exception as e:
            raise_from(types[i], messages[i], e)
    seen = []

    def command(args):
        seen.append(args.word)
        if kind == 'return':
            return status
        if kind == 'exit':
            sys.exit(status)
        if kind == 'interrupt':
            raise KeyboardInterrupt()
        if kind == 'end of file':
            raise EOFError()
        failing([XylemInternalError if kind == 'internal' else Mine,
                 ValueError, XylemError], 0)
    broken = S.pick('broken', [[], ImportError('no module'),
                               SyntaxError('invalid syntax'), None])
    env.set_entry_points('xylem.commands', [
        ('broken', broken),
        ('mine', {'title': 'mine', 'description': 'x', 'main': command,
                  'prepare_arguments': lambda p: p.add_argument('word') and
                  p, 'prepare_config': lambda d: None})])
    argv = ['mine', 'w', '--prefix', m.prefix]
    debug = S.bool('debug')
    if debug:
        argv.append('--debug')
    code, out, err = m.run(*argv)
    S.log('outcome', [code])
    S.check(seen == ['w'], "the command is not run once")
    if kind in ('return', 'exit'):
        S.check((code or 0) == (status or 0), "status of the command is lost")
        S.cover('status' if status else 'success')
        return
    S.check(code == 1, "failing command without failure status")
    if kind in ('interrupt', 'end of file'):
        S.cover('interrupted')
        return
    S.cover('error' if kind == 'error' else 'internal')
    for x in messages:
        S.check(x in err, "the message of the error or of a cause is not "
                "printed")
    if len(messages) > 1:
        S.cover('cause')
    S.check(('Traceback' in err) == (debug or kind == 'internal'),
            "traceback printed without debugging or missing with it")
    if debug:
        S.cover('debug')


@harness('C37', bounds="any of the five commands interrupted, out of input "
         "or failing with an arbitrary message while it detects the OS, "
         "fetches a source, uses an installer, runs a package manager or "
         "writes a file; debugging or not",
         covers=['update', 'lookup', 'resolve', 'install',
                 '_compact_rules_file', 'interrupted', 'error'])
def commands_that_are_interrupted(S):
    m = Machine(S, [{'key': any_os({'a': {'packages': ['p']}})}],
                uninstalled=lambda r: stop('installer') or r)
    from xylem.os_support import UnsupportedOSError
    from xylem.installers import InstallerError
    armed = []
    hit = []

    def stop(where):
        if where in armed:
            hit.append(where)
            raise error
    cmd = S.pick('command', ['update', 'lookup', 'resolve', 'install',
                             '_compact_rules_file'])
    where = S.pick('where', {
        'update': ['fetch'], 'lookup': ['os'], 'resolve': ['os'],
        'install': ['os', 'installer', 'process'],
        '_compact_rules_file': ['write']}[cmd])
    message = '<' + S.name('message') + '>'
    # anything else wrong with a source or installer is reported
    kind = S.pick('kind', ['interrupt'] + (
        ['end of file'] if where in ('os', 'write') else []) + (
        ['error'] if where in ('os', 'installer') else []))
    error = {'interrupt': KeyboardInterrupt(), 'end of file': EOFError(),
             'error': (InstallerError if where == 'installer' else
                       UnsupportedOSError)(message)}[kind]
    S.check(m.run('update', '--prefix', m.prefix)[0] == 0, "updating fails")
    base = fake_os('ubuntu', 'v1', 'a', ['a', 'c'], ['v1', 'v2'])

    class Slow(base):
        def is_os(self):
            stop('os')
            return True
    env.set_entry_points('xylem.os', [('u', plugin('os', Slow, 'u'))])
    page = env.ST.url
    env.ST.url = lambda *a, **k: stop('fetch') or page(*a, **k)
    env.ST.process = lambda c: stop('process') or (0, '', '')
    argv = [cmd, '--prefix', m.prefix, '--no-color']
    if cmd == '_compact_rules_file':
        with open('rules.yaml', 'w') as f:
            f.write('key: {ubuntu: {any_version: {a: {packages: [p]}}}}\n')
        argv += ['--write', 'rules.yaml']
        env.ST.fs_hook = lambda op, path: op == 'open-w' and stop('write')
    elif cmd != 'update':
        argv.append('key')
    debug = S.bool('debug')
    if debug:
        argv.append('--debug')
    armed.append(where)
    code, out, err = m.run(*argv)
    env.ST.fs_hook = None
    S.log('outcome', [str(code)])
    S.check(hit == [where], "the command does not get there once")
    S.check(isinstance(code, int) and code != 0,
            "interrupted command without failure status")
    S.cover(cmd)
    if kind == 'error':
        S.check(message in err, "the message of the error is not printed")
        S.check('Traceback' not in err if not debug else
                where == 'installer' or 'Traceback' in err,
                "traceback printed without debugging or missing with it")
        S.cover('error')
    else:
        S.check('Traceback' not in err, "interrupting a command is answered "
                "by a traceback")
        S.cover('interrupted')


@harness('C37', bounds="no command, an unknown command, a missing argument, "
         "an invalid value of an option or of a config file, an unknown OS "
         "as override",
         covers=['usage', 'config'])
def invalid_invocations(S):
    m = Machine(S, [])
    bad = S.pick('invocation', ['nothing', 'unknown command', 'no key',
                                'unknown option', 'option value',
                                'option value in front', 'config file',
                                'no config file', 'override'])
    word = S.name('word')
    argv = {'nothing': [], 'unknown command': ['nope'],
            'no key': ['resolve'], 'unknown option': ['update', '--nope'],
            'option value': ['update', '--core-installers', '{'],
            'option value in front': ['--core-installers', '{', 'update'],
            'config file': ['update'], 'no config file': ['update'],
            'override': ['resolve', '--os=' + word, 'key']}[bad]
    if bad == 'override':
        S.assume(word != 'ubuntu')
    elif bad in ('config file', 'no config file'):
        with open(os.path.join(m.prefix, 'etc', 'xylem', 'config.yaml'),
                  'w') as f:
            f.write('core_installers: {}\n' if bad == 'config file' else
                    '- a\n')
    if bad not in ('nothing', 'unknown command', 'no key', 'unknown option'):
        argv = ['--prefix', m.prefix] + argv
    ops = []
    env.ST.fs_hook = lambda op, path: ops.append(op)
    code, out, err = m.run(*argv)
    env.ST.fs_hook = None
    S.log('outcome', [code])
    S.check(ops == [], "an invalid invocation changes files")
    S.check('Traceback' not in err, "an invalid invocation is answered by a "
            "traceback")
    if bad in ('nothing', 'unknown command', 'no key', 'unknown option'):
        S.check(code == 2 and 'usage:' in err,
                "invalid usage is not reported as such")
        S.cover('usage')
    else:
        S.check(code == 1 and len(err) > 0,
                "invalid configuration is not reported as an error")
        S.cover('config')


@harness('C38', bounds="xylem resolve for up to two keys with rules for the "
         "default, another core, an additional or no installer, one or two packages of "
         "arbitrary names; all keys or not; showing the default installer "
         "or not; one key with one or eight packages and the core installers "
         "configured in any order",
         quick=[{}, {'many': 1}], covers=['many', 'core order','default', 'other', 'core', 'shown', 'unresolved',
                                       'all'])
def printed_resolutions(S, many=0):
    rules, kinds, packages = {}, [], []
    keys = ['k1'] if many else ['k1', 'k0']
    for k in keys:
        kind = S.pick('key', ['a', 'b', 'c', 'none'])
        kinds.append(kind)
        if many:
            ps = ['p%d' % i for i in range(S.pick('packages', [1, 8]))]
            ps[-1] = S.name('last package')
        else:
            ps = [S.name('package') for _ in range(S.count('packages', 1, 2))]
        packages.append(ps)
        if len(ps) > 2:
            S.cover('many')
        if kind != 'none':
            rules[k] = any_os({kind: {'packages': ps}})
    m = Machine(S, [rules])
    S.check(m.run('update', '--prefix', m.prefix)[0] == 0, "updating fails")
    argv = ['resolve', '--prefix', m.prefix, '--no-color']
    show = S.bool('show default installer')
    if show:
        argv.append('--show-default-installer')
        S.cover('shown')
    if many:
        core = S.pick('core', [None, 'c', 'c,a', 'b,a', 'a,b'])
        if core is not None:
            argv += ['--core-installers', core]
            S.cover('core order')
        if kinds[0] == 'a' and core == 'c' or \
                kinds[0] == 'c' and core in ('b,a', 'a,b'):
            # no installer for the key
            kinds[0] = 'none'
    everything = S.bool('all')
    if everything:
        argv.append('--all')
        S.cover('all')
    asked = keys[:S.count('asked', 1, len(keys))]
    code, out, err = m.run(*(argv + asked))
    S.log('outcome', [code, out])
    order = list(asked)
    if everything:
        order += sorted(k for k, x in zip(keys, kinds) if x != 'none' and
                        k not in asked)
    text = ''
    bad = False
    for k in order:
        i = keys.index(k)
        if kinds[i] == 'none':
            bad = True
            S.check("'%s'" % k in err, "unresolved key is not named")
            S.cover('unresolved')
            continue
        inst = ''
        if kinds[i] != 'a' or show:
            inst = kinds[i] + ': '
            S.cover('default' if kinds[i] == 'a' else
                    'other' if kinds[i] == 'b' else 'core')
        text += k + ' --> ' + inst + ', '.join(packages[i]) + '\n'
    S.check(out == text, "printed resolutions are not the actual ones")
    S.check(code == (1 if bad else 0), "the exit status does not tell whether "
            "every key is resolved")


@harness('C38', bounds="xylem lookup for one or two keys, any subset of rules "
         "for any OS, any version and two versions, for the default or "
         "another installer; the version overridden or not",
         quick=[{'insts': ['a']}, {'insts': ['b'], 'vers': ['v1']}],
         thorough=[{'insts': ['a', 'b']}],
         covers=['rules', 'no rules', 'override'])
def printed_rules(S, insts, vers=('any_version', 'v1')):
    from lib import gen_rules, spec_lookup
    rules = gen_rules(S, 'r', ['key'], ['ubuntu'], list(vers), insts)
    for d in rules.get('key', {}).get('ubuntu', {}).values():
        if 'a' in d and 'default_installer' in d:
            S.reject()
    m = Machine(S, [rules])
    S.check(m.run('update', '--prefix', m.prefix)[0] == 0, "updating fails")
    argv = ['lookup', '--prefix', m.prefix, '--no-color']
    ver = 'v1'
    if S.bool('override'):
        ver = S.pick('version', ['v1', 'v2'])
        argv += ['--os', 'ubuntu:' + ver]
        S.cover('override')
    keys = ['key'] + (['other'] if S.bool('two keys') else [])
    code, out, err = m.run(*(argv + keys))
    S.log('outcome', [code, out])
    S.check(code == 0, "lookup fails")
    from xylem.yaml_utils import load_yaml
    from xylem.specs.plugins.rules import expand_rules
    want = spec_lookup(rules, 'key', 'ubuntu', ver, 'a')
    head = "Rules for 'key' on 'ubuntu:%s':\n" % ver
    S.check(out.startswith(head), "no heading naming key and OS")
    text = out[len(head):]
    if len(keys) == 2:
        tail = "Rules for 'other' on 'ubuntu:%s':\n" % ver
        S.check(tail in text, "no rules for the second key")
        i = text.index(tail)
        other = load_yaml(text[i + len(tail):])
        text = text[:i]
        S.check(not other, "rules for a key that has none")
    got = load_yaml(text)
    S.log('printed', got)
    if not want:
        S.check(not got, "rules are printed although there are none")
        S.cover('no rules')
        return
    back = expand_rules({'key': {'any_os': got}})
    S.check(spec_lookup(back, 'key', 'ubuntu', ver, 'a') == want,
            "the printed rules are not those provided for the key")
    S.cover('rules')


ODD = ['p\u00e9', '\u2028', '0o7', 'a: b', ' x #y ', 'p\n\n q', '', '5',
       'p\n\nq', 'null', "'", '"', '%s{}', 'x' * 100 + ' ' + 'y' * 100, '- z']


@harness('C38', bounds="xylem lookup for a key with rules of up to two "
         "installers whose packages and options have any of 15 unusual "
         "texts or values; with and without colors", covers=['a', 'b'])
def printed_rules_of_unusual_texts(S):
    import re
    odd = S.pick('package', ODD)
    rule = {'packages': [odd, 'p'] if S.bool('two') else [odd]}
    if S.bool('option'):
        rule['flags'] = S.pick('value', ['', [], None, 'x\n\n\ny\n', {'a': [
            'b']}, ['\u00e9', 5], False])
    elif S.bool('last option'):
        rule['version'] = '1.x..'
    insts = {S.pick('installer', ['a', 'b']): rule}
    if 'a' in insts and S.bool('both'):
        insts['b'] = {'packages': ['q']}
    for i in insts:
        S.cover(i)
    m = Machine(S, [{'key': any_os(insts)}])
    S.check(m.run('update', '--prefix', m.prefix)[0] == 0, "updating fails")
    argv = ['lookup', '--prefix', m.prefix, 'key']
    if S.bool('no color'):
        argv.append('--no-color')
    code, out, err = m.run(*argv)
    S.log('outcome', [code, out])
    S.check(code == 0, "lookup fails")
    from xylem.yaml_utils import load_yaml
    from xylem.specs.plugins.rules import expand_rules
    out = re.sub('\x1b\\[[0-9;]*m', '', out)
    head = "Rules for 'key' on 'ubuntu:v1':\n"
    S.check(out.startswith(head), "no heading naming key and OS")
    back = expand_rules({'key': {'any_os': load_yaml(out[len(head):])}})
    got = dict(back['key']['any_os']['any_version'])
    if 'default_installer' in got:
        got['a'] = got.pop('default_installer')
    S.check(got == insts, "the printed rules are not those provided for the "
            "key")


@harness('C42', bounds="a rules file with one key, any_os or one OS with any "
         "subset of any_version and one version, or a malformed one; "
         "printing or overwriting",
         covers=['printed', 'written', 'malformed', 'missing', 'empty'])
def compacting_a_rules_file(S):
    from lib import gen_rules, spec_lookup
    kind = S.pick('file', ['fine', 'malformed', 'missing', 'empty',
                           'no yaml'])
    rules = {}
    if kind == 'fine':
        rules = gen_rules(S, 'r', ['key'], ['ubuntu'],
                          ['any_version', 'v1'], ['a'],
                          optional_key=False)
        for d in rules.get('key', {}).get('ubuntu', {}).values():
            if 'a' in d and 'default_installer' in d:
                S.reject()
        odd = S.pick('package', [None, 'p\u00e9', '\u2028', '0o7', 'a: b',
                                 ' x #y ', 'p\n\n q', 'p\tq'])
        if odd is not None:
            rules['odd'] = {'ubuntu': {'v1': {'a': {'packages': [odd]}}}}
    m = Machine(S, [])
    from xylem.yaml_utils import dump_yaml, load_yaml
    from xylem.specs.plugins.rules import expand_rules
    path = os.path.join(env.scratch(), 'file.yaml')
    text = {'fine': dump_yaml(rules), 'malformed': S.pick('text', [
        '5', '- a', 'key: 5\n', 'key:\n  ubuntu: 5\n', 'a b:\n  any_os: x\n',
        'key:\n  any_os:\n    default_installer: [x]\n',
        'key:\n  any_os:\n    apt:\n      packages: 5\n',
        'ok: [x]\nkey:\n  a/b: [x]\n']) if kind == 'malformed' else '',
            'missing': None, 'empty': '', 'no yaml': 'a: [\n'}[kind]
    if kind == 'fine' and odd == 'p\tq':
        # as it is, within quotes
        text = text.replace('\\t', '\t')
    if text is not None:
        with io.open(path, 'w', encoding='utf-8') as f:
            f.write(text)
    writing = S.bool('write')
    argv = ['_compact_rules_file', '--prefix', m.prefix, '--no-color', path]
    code, out, err = m.run(*(argv + (['-w'] if writing else [])))
    S.log('outcome', [code if isinstance(code, int) else 'exception', out])
    now = None
    if os.path.exists(path):
        with io.open(path, encoding='utf-8') as f:
            now = f.read()
    if kind in ('malformed', 'missing', 'no yaml'):
        S.check(code not in (0, None, 'returned'),
                "a file without valid rules is compacted")
        S.check(now == text and out == '', "a file without valid rules is "
                "changed or created, or something is printed")
        S.cover('missing' if kind == 'missing' else 'malformed')
        return
    S.check(code == 0, "compacting a valid file fails")
    if writing:
        S.check(out == '', "result printed although it is written")
        S.cover('written')
        result = now
    else:
        S.check(now == text, "file changed although not requested")
        S.cover('printed')
        result = out
    if kind == 'empty':
        S.check(not load_yaml(result), "rules out of nothing")
        S.cover('empty')
        return
    S.log('result', result)
    again = expand_rules(load_yaml(result))
    for osn in ('ubuntu', 'other'):
        for v in ('v1', 'v2'):
            S.check(spec_lookup(again, 'key', osn, v, 'a') ==
                    spec_lookup(rules, 'key', osn, v, 'a') and
                    spec_lookup(again, 'odd', osn, v, 'a') ==
                    spec_lookup(rules, 'odd', osn, v, 'a'),
                    "the compacted file provides other rules")


PRINTING = {
    'update': ['--dry-run'],
    'lookup': [],
    'resolve': ['--all', '--show-default-installer'],
    'install': ['--all', '--reinstall', '--dry-run', '--continue-on-error',
                '--fix-prerequisites'],
}


@harness('C23', bounds="--print-config in front of or behind any of the "
         "commands and any one or two of its options and of the common ones, "
         "with a list given on the command line, in a file or not",
         covers=['front', 'behind', 'option', 'common', 'dry run'])
def configuration_printed_by_any_command(S):
    from xylem.yaml_utils import load_yaml
    value = S.name('value')
    m = Machine(S, [{'key': any_os({'a': {'packages': ['p']}})}])
    cmd = S.pick('command', sorted(PRINTING))
    argv = []
    for o in PRINTING[cmd]:
        if len(argv) < 2 and S.bool(o):
            argv.append(o)
            S.cover('dry run' if o == '--dry-run' else 'option')
    more = S.pick('common', ['none', '--verbose', '--debug', '--no-color',
                             '--no-user-config'])
    if more != 'none':
        argv.append(more)
        S.cover('common')
    where = S.pick('given', ['no', 'command line', 'file'])
    if where == 'command line':
        S.assume(value != '--')
        argv.append("--core-installers='%s'" % value)
    elif where == 'file':
        home = os.path.join(os.environ['HOME'], '.config', 'xylem')
        os.makedirs(home)
        with open(os.path.join(home, 'config.yaml'), 'wb') as f:
            f.write(("core_installers: ['%s']\n" % value).encode('utf-8'))
    keys = ['key'] if cmd != 'update' else []
    if S.bool('front'):
        argv = ['--print-config', cmd] + keys + argv
        S.cover('front')
    else:
        argv = [cmd] + keys + argv + ['--print-config']
        S.cover('behind')
    ops, loads = [], []
    page = env.ST.url
    env.ST.url = lambda url, *a, **k: loads.append(url) or page(url, *a, **k)
    env.ST.fs_hook = lambda op, path: ops.append(op)
    code, out, err = m.run(*(argv + ['--prefix', m.prefix]))
    env.ST.fs_hook = None
    S.log('outcome', [code if isinstance(code, int) else str(code)])
    S.check(code in (0, None), "printing the configuration fails")
    S.check(ops == [] and loads == [] and env.ST.commands == [] and
            m.log == [], "something is done but printing the configuration")
    lines = [x for x in out.split('\n') if not x.startswith('\x1b[')]
    d = load_yaml('\n'.join(lines))
    want = None
    if where == 'command line' or \
            where == 'file' and more != '--no-user-config':
        want = [value]
    S.check(isinstance(d, dict) and 'core_installers' in d and
            d['core_installers'] == want,
            "the configuration printed is not the effective one")
    S.check('os_override' in d and 'install_from' in d and
            'cache_dir' in d, "the configuration printed is incomplete")


@harness('C17', bounds="any one item of the configuration, the prefix, the "
         "private directory or the switch for user files given in front of "
         "or behind the command", covers=['front', 'behind', 'global',
                                          'not given'])
def options_anywhere_on_the_command_line(S):
    from h_config import World, ITEMS, DEFAULTS, gen_value, item_of
    w = World(S)
    from xylem.config import get_config
    name, kind, arg = S.pick('item', ITEMS)
    option = S.pick('option', ['item', 'prefix', 'private', 'no user config',
                               'none'])
    w.write(w.user, 'core_installers: [u]\n')
    w.write(w.system, 'core_installers: [s]\n')
    w.write(w.private, 'core_installers: [p]\n')
    env.set_entry_points('xylem.commands', [
        ('mine', {'title': 'mine', 'description': 'x',
                  'main': lambda args: seen.append(args),
                  'prepare_arguments': lambda p: None,
                  'prepare_config': lambda d: None})])
    seen = []
    core = ['u']
    argv = []
    v = None
    if option == 'item':
        v, _, cl = gen_value(S, 'v', kind, 1)
        argv = ['--%s=%s' % (arg, cl)]
    elif option == 'prefix':
        argv = ['--prefix', w.prefix]
        S.cover('global')
    elif option == 'private':
        argv = ['--xylem-dir', w.private]
        core = ['p']
    elif option == 'no user config':
        argv = ['--no-user-config', '--prefix=' + w.prefix]
        core = ['s']
    else:
        S.cover('not given')
    front = S.bool('in front')
    S.cover('front' if front else 'behind')
    from xylem.commands.main import main
    old = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    code = None
    try:
        main(argv + ['mine'] if front else ['mine'] + argv)
    except SystemExit as e:
        code = e.code
    finally:
        sys.stdout, sys.stderr = old
    S.check(not code and len(seen) == 1, "the command is not run")
    config = get_config()
    if v is not None:
        S.check(item_of(config, name) == v, "value on the command line is "
                "not used")
    if name != 'core_installers' or v is None:
        S.check(config.core_installers == core,
                "options choosing config files have no effect")
    for n in sorted(DEFAULTS):
        if n not in ('core_installers', 'cache_dir', 'sources_dir') and \
                (n != name or v is None):
            S.check(item_of(config, n) == DEFAULTS[n],
                    "item without value is not the default")
    if option in ('prefix', 'no user config'):
        S.check(config.sources_dir.startswith(w.prefix + '/'),
                "the prefix has no effect")


@harness('C15', bounds="xylem update with or without either spelling of the "
         "dry-run option, for up to two sources that fail to load or not, "
         "with or without caches from before",
         covers=['dry run', 'nothing there', 'updated', 'failing'])
def update_on_the_command_line(S):
    n = S.count('n', 1, 2)
    old = [S.name('old') for _ in range(n)]
    new = [S.name('new') for _ in range(n)]

    def rules(pkgs):
        return [{'k%d' % i: any_os({'a': {'packages': [p]}})}
                for i, p in enumerate(pkgs)]
    m = Machine(S, rules(old))

    def files():
        r = {}
        for d, _, fs in os.walk(os.path.dirname(m.prefix)):
            r[d] = None
            for f in fs:
                with open(os.path.join(d, f), 'rb') as h:
                    r[os.path.join(d, f)] = h.read()
        return r
    had = S.bool('updated before')
    if had:
        S.check(m.run('update', '--prefix', m.prefix)[0] == 0,
                "updating fails")
    from xylem.yaml_utils import dump_yaml
    broken = S.pick('broken', [None] + list(range(n)))
    for i, r in enumerate(rules(new)):
        m.urls['http://host/%d.yaml' % i] = \
            '{' if i == broken else dump_yaml(r)
    opt = S.pick('option', [None, '-n', '--dry-run'])
    before = files()
    ops = []
    env.ST.fs_hook = lambda op, path: ops.append(op)
    code, out, err = m.run(*(['update', '--prefix', m.prefix] +
                             ([opt] if opt else [])))
    env.ST.fs_hook = None
    S.log('outcome', [code])
    S.check(code == 0, "updating fails")
    for i in range(n):
        S.check('http://host/%d.yaml' % i in out, "source not mentioned")
        S.check((i == broken) == ('http://host/%d.yaml' % i in err),
                "not exactly the failing source is reported")
    if opt:
        S.check(ops == [] and files() == before, "a dry run changes files")
        S.cover('dry run')
        if not had:
            S.cover('nothing there')
            return
    if broken is not None:
        S.cover('failing')
        if not had:
            return
    for i in range(n):
        code, out, err = m.run('lookup', '--prefix', m.prefix, 'k%d' % i)
        S.check(code == 0, "lookup fails")
        want = old[i] if opt or i == broken else new[i]
        S.check(want in out, "rules used that were not the last ones loaded")
        if not opt and i != broken:
            S.cover('updated')


@harness('C39', bounds="xylem resolve with or without verbose, debug and "
         "color options in front of or behind the command, debugging enabled "
         "by the environment or not, arbitrary package name",
         covers=['plain', 'colored', 'verbose', 'debug'],
         history=False)     # the settings stay
def output_options(S):
    package = S.name('package')
    m = Machine(S, [{'key': any_os({'a': {'packages': [package]}})}])
    S.check(m.run('--prefix', m.prefix, 'update')[0] == 0, "updating fails")
    front, behind = [], []
    on = {}
    where = S.bool('in front')
    for o in (['-v', '--verbose'], ['-d', '--debug'], ['--no-color'] * 2,
              ['--pdb'] * 2):
        on[o[1]] = S.bool(o[1])
        if on[o[1]]:
            x = S.pick('spelling', o) if o[0] != o[1] else o[0]
            (front if where else behind).append(x)
    for v in ('XYLEM_DEBUG', 'XYLEM_PDB'):
        if S.bool(v):
            os.environ[v] = ''
            on['--' + v[6:].lower()] = True
    code, out, err = m.run(*(front + ['resolve', '--prefix', m.prefix, 'key']
                             + behind))
    S.check(code == 0, "resolving fails: %r %r" % (code, err))
    from xylem.log_utils import is_debug, is_verbose
    from xylem.util import pdb_enabled
    S.check(is_verbose() == on['--verbose'], "verbose output not as asked")
    S.check(is_debug() == on['--debug'], "debug output not as asked")
    S.check(pdb_enabled() == on['--pdb'], "debugger not as asked")
    for o in on:
        if on[o]:
            S.cover(o[2:].replace('no-color', 'plain').replace('pdb',
                                                               'debug'))
    if on['--no-color']:
        S.check('\033' not in out and '\033' not in err,
                "colors although not wanted")
        line = 'key --> ' + package + '\n'
        S.check(out.endswith(line) if on['--verbose'] else out == line,
                "wrong output")
    else:
        S.check('\033' in out, "no colors although wanted")
        S.cover('colored')
    if not on['--debug'] and not on['--verbose']:
        S.check(err == '', "output although not asked for")


@harness('C37', bounds="help or version asked for in any place, with or "
         "without a command, for each shipped command",
         covers=['help', 'version'])
def help_and_version(S):
    m = Machine(S, [])
    env.set_entry_points('xylem.commands', None)
    cmd = S.pick('command', [None, 'install', 'lookup', 'resolve', 'update',
                             '_compact_rules_file'])
    what = S.pick('asked for', ['-h', '--help', '--version'])
    argv = [what]
    if cmd is not None:
        argv = [what, cmd] if S.bool('in front') else [cmd, what]
    os.environ['COLUMNS'] = '200'
    if S.bool('other option'):
        argv = ['--prefix', m.prefix] + argv
    ops = []
    env.ST.fs_hook = lambda op, path: ops.append(op)
    code, out, err = m.run(*argv)
    env.ST.fs_hook = None
    S.log('outcome', [code])
    S.check(code == 0, "asking for help or version fails")
    S.check(ops == [], "asking for help or version changes files")
    if what == '--version':
        from xylem import __version__
        S.check(out == __version__ + '\n', "wrong version")
        S.cover('version')
        return
    S.cover('help')
    own = {'install': ['xylem_key', '--all', '--reinstall', '--dry-run',
                       '--continue-on-error', '--fix-prerequisites'],
           'lookup': ['xylem_key'],
           'resolve': ['xylem_key', '--all', '--show-default-installer'],
           'update': ['--dry-run'],
           '_compact_rules_file': ['rules-file', '--write'],
           None: ['install', 'lookup', 'resolve', 'update']}
    words = own[None if cmd is None or argv.index(what) < argv.index(cmd)
                else cmd]
    for x in words + ['--version', '--verbose', '--debug', '--prefix',
                      '--xylem-dir', '--no-user-config', '--print-config',
                      '--os ', '--os-features', '--core-installers',
                      '--use-additional-installers', '--install-from',
                      '--installer-options', '--user-sources',
                      '--cache-dir', '--sources-dir',
                      '--disable-os-plugins', '--disable-spec-plugins',
                      '--disable-installer-plugins']:
        S.check(x in out, "the help does not mention " + x)


@harness('C48', bounds="up to n commands provided by plugins, each valid, "
         "not loadable or no definition, valid ones with an argument and "
         "with a configuration item of their own, in a group or not, on the "
         "command line or not; any of them invoked, with its item in the "
         "user's file, on the command line, both or not given; next to the "
         "shipped commands or not; with each=0, commands not invoked have "
         "string items outside of groups only",
         quick=[{'n': 2, 'each': 0}],
         thorough=[{'n': 2, 'each': 1}, {'n': 3, 'each': 0}], history=False,
         covers=['run', 'refused', 'file', 'command line', 'both', 'default',
                 'other case', 'hidden', 'group', 'broken'])
def commands_of_plugins(S, n, each):
    m = Machine(S, [])
    from xylem.config import get_config
    from xylem.config_utils import String, List
    home = os.path.join(os.environ['HOME'], '.config', 'xylem')
    ran = []
    kinds = []
    entries = []
    names = []
    items = []
    k = S.count('n', 1, n)
    w = S.pick('which', list(range(k)))
    for i in range(k):
        full = each or i == w
        kind = S.pick('kind', ['valid', 'fails', 'no dict'])
        name = S.pick('name', ['cmd%d' % i, '_cmd%d' % i]) \
            if full else S.pick('other name', ['cmd%d' % i, 'Cmd%d' % w])
        if name == 'Cmd%d' % w:
            S.assume(name not in names)
            S.cover('other case')
        kinds.append(kind)
        names.append(name)
        items.append(None)
        if kind != 'valid':
            entries.append((name, ImportError('no ' + name)
                            if kind == 'fails' else [name]))
            continue
        if S.bool('item'):
            group = full and S.bool('group')
            if group:
                S.cover('group')
            items[i] = ('more/item%d' % i if group else 'item%d' % i,
                        S.bool('on command line'),
                        full and S.bool('list'), S.name('default'))

        def prepare_config(d, item=items[i]):
            if item is not None:
                d.add(item[0], type=List(String) if item[2] else String,
                      default=[item[3]] if item[2] else item[3],
                      command_line=item[1], help='An item.')

        def prepare_arguments(p, i=i):
            p.add_argument('--own%d' % i, default='none')
            return None if i == w and S.bool('returns none') else p

        def command(args, i=i):
            ran.append((i, getattr(args, 'own%d' % i), get_config()))
        entries.append((name, dict(
            title=name, description='Does things.', main=command,
            prepare_arguments=prepare_arguments,
            prepare_config=prepare_config)))
    if S.bool('shipped'):
        entries.append(('update', 'xylem.commands.update:definition'))
    env.set_entry_points('xylem.commands', entries)
    given = S.name('own')
    S.assume(given != '--')     # argparse drops it
    argv = [names[w], '--own%d=%s' % (w, given), '--prefix', m.prefix]
    # every item may be given in the file, that of the command also here
    wants = {}
    lines = ''
    groups = ''
    for i, item in enumerate(items):
        if item is None:
            continue
        key, cl, lst, default = item
        want = default
        where = S.pick('where', ['default', 'file'] +
                       ['command line', 'both'] * (cl and i == w))
        if where in ('file', 'both'):
            want = S.name('in file')
            text = '%s: %s\n' % (key.split('/')[-1],
                                 "['%s']" % want if lst else "'%s'" % want)
            if '/' in key:
                groups += '  ' + text
            else:
                lines += text
        if where in ('command line', 'both'):
            want = S.name('on command line')
            S.assume(want != '--')
            argv.append('--%s=%s' % (key.replace('/', '-'),
                                     "'%s'" % want if lst else want))
        S.cover(where)
        wants[key] = [want] if lst else want
    if lines or groups:
        os.makedirs(home)
        with open(os.path.join(home, 'config.yaml'), 'wb') as f:
            f.write((lines + ('more:\n' + groups if groups else ''))
                    .encode('utf-8'))
    code, out, err = m.run(*argv)
    S.log('outcome', [code if isinstance(code, int) else str(code)])
    for kind, name in zip(kinds, names):
        S.check((kind != 'valid') == any(
            "'" + name + "'" in line for line in err.splitlines()
            if 'choose from' not in line),
            "not exactly the commands that do not work are reported")
        if kind != 'valid':
            S.cover('broken')
    if kinds[w] != 'valid':
        S.check(isinstance(code, int) and code != 0 and ran == [],
                "a command that does not work is run")
        S.cover('refused')
        return
    S.check(code == 0, "a valid command cannot be run")
    S.check([r[:2] for r in ran] == [(w, given)], "not exactly the command "
            "asked for is run, with its arguments")
    config = ran[0][2]
    for key in wants:
        value = config
        for part in key.split('/'):
            value = value[part]
        S.check(value == wants[key], "wrong value for an item of a command")
    S.check(config.use_additional_installers is True and
            config.install_from == {} and config.core_installers is None,
            "items of commands affect others")
    S.cover('run')
    if names[w].startswith('_'):
        S.cover('hidden')


@harness('C48', bounds="the separate program for updating with or without "
         "dry run and prefix, for sources that load or not, an invalid "
         "configuration or option, or interrupted",
         covers=['updated', 'dry run', 'failing', 'refused', 'interrupted'],
         history=False)
def separate_update_program(S):
    package = S.name('package')
    m = Machine(S, [{'key': any_os({'a': {'packages': [package]}})}])
    from xylem.exception import XylemError
    from xylem.commands.update import main
    case = S.pick('case', ['fine', 'failing', 'bad config', 'bad option',
                           'interrupted'])
    dry = S.pick('dry run', [None, '-n', '--dry-run'])
    argv = [dry] if dry else []
    if S.bool('prefix'):
        argv += ['--prefix', m.prefix]
    else:
        os.environ['XYLEM_PREFIX'] = m.prefix
        S.cleanup(lambda: os.environ.pop('XYLEM_PREFIX', None))
    if case == 'failing':
        m.urls['http://host/0.yaml'] = '{'
    elif case == 'bad config':
        with open(os.path.join(m.prefix, 'etc', 'xylem', 'config.yaml'),
                  'w') as f:
            f.write('core_installers: 5\n')
    elif case == 'bad option':
        argv += ['--nope']
    elif case == 'interrupted':
        def url(*a, **k):
            raise KeyboardInterrupt()
        env.ST.url = url
    ops = []
    out, err = io.StringIO(), io.StringIO()
    env.patch(sys, 'argv', ['xylem-update'] + argv)
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    env.ST.fs_hook = lambda op, path: ops.append(op)
    try:
        code = main()
    except SystemExit as e:
        code = e.code
    except XylemError as e:
        code = 'error'
    finally:
        env.ST.fs_hook = None
        sys.stdout, sys.stderr = old
    S.log('outcome', [code])
    out, err = out.getvalue(), err.getvalue()
    cache = os.path.join(m.prefix, 'var', 'cache', 'xylem')
    there = [f for _, _, fs in os.walk(cache) for f in fs]
    if dry:
        S.check(ops == [], "a dry run changes files")
        S.cover('dry run')
    if case in ('bad config', 'bad option', 'interrupted'):
        S.check(code not in (0, None), "failing without failure status")
        S.check(there == [], "something was updated")
        S.cover('interrupted' if case == 'interrupted' else 'refused')
        return
    S.check(not code, "updating fails")
    S.check('http://host/0.yaml' in out, "source not mentioned")
    S.check((case == 'failing') == ('http://host/0.yaml' in err),
            "not exactly the failing source is reported")
    if case == 'failing':
        S.check(there == [], "cache of a source that could not be loaded")
        S.cover('failing')
    elif not dry:
        code, out, err = m.run('lookup', '--prefix', m.prefix, 'key')
        S.check(code == 0 and package in out, "the cache does not hold the "
                "rules loaded")
        S.cover('updated')
