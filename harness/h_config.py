"""Configuration: layers, typed values, completeness, directories."""

import argparse
import os
import sys

import env
from symx.hapi import harness
from lib import attempt, distinct, not_one_of, clone


# (name, kind, command line argument) of every item of the configuration
ITEMS = [
    ('os_options/features', 'list', 'os-features'),
    ('core_installers', 'list', 'core-installers'),
    ('use_additional_installers', 'bool', 'use-additional-installers'),
    ('install_from', 'merging list', 'install-from'),
    ('installer_options', 'merging dict', 'installer-options'),
    ('user_sources', 'bool', 'user-sources'),
    ('cache_dir', 'path', 'cache-dir'),
    ('sources_dir', 'path', 'sources-dir'),
    ('disabled_plugins/os', 'list', 'disable-os-plugins'),
    ('disabled_plugins/installer', 'list', 'disable-installer-plugins'),
    ('disabled_plugins/spec', 'list', 'disable-spec-plugins'),
]
WITH_VALUE = ['--' + i[2] for i in ITEMS] + ['--prefix', '--xylem-dir',
                                             '--os']
DEFAULTS = {
    'os_override': None, 'os_options/features': None,
    'core_installers': None, 'use_additional_installers': True,
    'install_from': {}, 'installer_options': {}, 'user_sources': False,
    'cache_dir': None, 'sources_dir': None, 'disabled_plugins/os': [],
    'disabled_plugins/installer': [], 'disabled_plugins/spec': []}


class World(object):
    """Home, prefix and tool directories with config files."""

    def __init__(self, S):
        # the home directory is looked up when the package is loaded
        self.base = env.scratch()
        assert env.ST.place == self.base or \
            'xylem.config_utils' not in sys.modules
        self.home = os.path.join(self.base, 'home')
        os.environ['HOME'] = self.home
        self.user = os.path.join(self.home, '.config', 'xylem')
        self.prefix = os.path.join(self.base, 'pre')
        self.system = os.path.join(self.prefix, 'etc', 'xylem')
        self.private = os.path.join(self.base, 'private')
        for d in (self.user, self.system, self.private):
            os.makedirs(d)
        os.chdir(self.base)

    def write(self, d, text):
        with open(os.path.join(d, 'config.yaml'), 'wb') as f:
            f.write(text.encode('utf-8'))


def load(argv):
    """The effective configuration for a command line."""
    from xylem.arguments import add_global_arguments
    from xylem.arguments import handle_global_arguments
    from xylem.config import add_config_arguments
    from xylem.config import handle_config_arguments
    from xylem.config import get_config
    parser = argparse.ArgumentParser(add_help=False)
    # values may begin with '-'
    i = 0
    args = []
    while i < len(argv):
        if argv[i] in WITH_VALUE:
            args.append(argv[i] + '=' + argv[i + 1])
            i += 1
        else:
            args.append(argv[i])
        i += 1
    add_config_arguments(parser)
    add_global_arguments(parser)
    args = parser.parse_args(args)
    handle_global_arguments(args)
    handle_config_arguments(args)
    return get_config()


def item_of(config, name):
    if '/' in name:
        group, sub = name.split('/')
        return config[group][sub]
    return config[name]


def gen_value(S, tag, kind, n=2):
    """(value, YAML text, command line text)"""
    if kind == 'bool':
        v = S.bool(tag + '.bool')
        t = S.pick(tag + '.word', [['no', 'false'], ['yes', 'true']][v])
        return v, t, t
    if kind == 'path':
        v = '/' + S.name(tag + '.path')
        return v, v, v
    if kind == 'string':
        v = S.name(tag + '.string')
        return v, v, v
    if kind == 'list':
        v = [S.name(tag + '.item') for _ in range(S.count(tag + '.n', 0, 1))]
        t = '[' + ', '.join(v) + ']'
        return v, t, t
    if kind == 'merging list':
        out = {}
        for i in range(S.count(tag + '.n', 0, n)):
            out[S.name('key%d' % i)] = [
                S.name(tag + '.item')] * S.count(tag + '.m', 0, 1)
        t = ', '.join('%s: [%s]' % (k, ', '.join(v)) for k, v in out.items())
        return out, '{' + t + '}', t
    out = {}
    for i in range(S.count(tag + '.n', 0, n)):
        out[S.name('inst')] = {
            S.name(tag + '.opt'): S.name(tag + '.val')} if \
            S.bool(tag + '.some') else {}
    t = ', '.join('%s: {%s}' % (k, ''.join(
        '%s: %s' % x for x in d.items())) for k, d in out.items())
    return out, '{' + t + '}', t


def to_file(values):
    """YAML text of a config file; values: [(item name, text)]"""
    text = ''
    groups = []
    for name, t in values:
        if '/' in name:
            g, s = name.rsplit('/', 1)
            if g not in groups:
                groups.append(g)
        else:
            text += '%s: %s\n' % (name, t)
    for g in groups:
        text += g + ':\n'
        for name, t in values:
            if name.startswith(g + '/'):
                text += '  %s: %s\n' % (name.split('/')[1], t)
    return text


def combine(kind, values, default):
    """What the values of the layers, most important first, stand for."""
    values = [v for v in values if v is not None] + [default]
    if kind.startswith('merging'):
        out = {}
        for v in reversed(values):
            for k in v:
                out[k] = v[k]
        return out
    return values[0]


@harness('C17', bounds="every item of the configuration, set to any value or "
         "null or not at all on the command line and in the user and system "
         "files (at most one entry per list, n per dict, arbitrary "
         "possibly equal names); another item of the same or another group "
         "set in one layer; files missing or not",
         quick=[{'items': [x], 'n': 1} for x in range(len(ITEMS))] +
         [{'items': [3], 'n': 2, 'layers': ['user', 'system']}],
         thorough=[{'items': [x], 'n': 2} for x in range(len(ITEMS))],
         covers=['args', 'user', 'system', 'default', 'merged', 'null'])
def layers_of_the_configuration(S, items, n, layers=None):
    name, kind, arg = ITEMS[S.pick('item', items)]
    w = World(S)
    files = {'user': [], 'system': []}
    argv = ['--prefix', w.prefix]
    values = []
    where = 'default'
    for layer in ('args', 'user', 'system'):
        states = ['unset', 'set', 'null'] if layer != 'args' else \
            ['unset', 'set']
        if layers:
            states = ['set'] if layer in layers else ['unset']
        state = S.pick(layer, states)
        if state == 'null':
            files[layer].append((name, 'null' if layer == 'user' else ''))
            S.cover('null')
        if state != 'set':
            values.append(None)
            continue
        v, text, cl = gen_value(S, layer, kind, n)
        values.append(v)
        if where == 'default':
            where = layer
            S.cover(layer)
        elif kind.startswith('merging'):
            S.cover('merged')
        if layer == 'args':
            argv += ['--' + arg, cl]
        else:
            files[layer].append((name, text))
    if where == 'default':
        S.cover('default')
    # an unrelated item
    other = None
    if not layers and S.bool('other'):
        other = S.name('other')
        oname = 'disabled_plugins/installer' if name != \
            'disabled_plugins/installer' else 'core_installers'
        files[S.pick('other.layer', ['user', 'system'])].append(
            (oname, '[' + other + ']'))
    for layer, d in (('user', w.user), ('system', w.system)):
        if files[layer]:
            w.write(d, to_file(files[layer]))
    config = load(argv)
    got = item_of(config, name)
    want = combine(kind, values, DEFAULTS[name])
    if name in ('cache_dir', 'sources_dir') and where == 'default':
        want = got          # computed, see C20
    S.log('value', got if name not in ('cache_dir', 'sources_dir') else '')
    S.check(got == want, "the effective value is not that of the most "
            "important layer setting it")
    for n in sorted(DEFAULTS):
        if n == name or n in ('cache_dir', 'sources_dir'):
            continue
        if other is not None and n == oname:
            S.check(item_of(config, n) == [other],
                    "an item set in another layer is lost")
        else:
            S.check(item_of(config, n) == DEFAULTS[n],
                    "an item that is not set has not its default value")


@harness('C17', bounds="up to three config files in the user, system and "
         "private directory; private directory and prefix given on the "
         "command line, in the environment, both or not at all; user "
         "configuration disabled or not; the private directory there or not",
         covers=['private', 'no directory', 'system only', 'both', 'env', 'args win',
                 'default prefix'])
def files_that_are_read(S):
    w = World(S)
    have = {}
    for d in ('user', 'system', 'private', 'other'):
        if S.bool('file in ' + d):
            have[d] = S.name(d)
    dirs = {'user': w.user, 'system': w.system, 'private': w.private}
    for d in ('user', 'system', 'private'):
        if d in have:
            w.write(dirs[d], 'core_installers: [%s]\n' % have[d])
    other = os.path.join(w.base, 'other')
    os.makedirs(other)
    os.makedirs(os.path.join(other, 'etc', 'xylem'))
    if 'other' in have:
        t = 'core_installers: [%s]\n' % have['other']
        w.write(other, t)
        w.write(os.path.join(other, 'etc', 'xylem'), t)
    argv = []
    private = S.pick('private', ['no', 'args', 'env', 'both'])
    if private != 'no' and 'private' not in have and \
            S.bool('no private directory'):
        os.rmdir(w.private)
        S.cover('no directory')
    if private in ('args', 'both'):
        argv += ['--xylem-dir', w.private]
    if private == 'env':
        os.environ['XYLEM_DIR'] = w.private
        S.cover('env')
    if private == 'both':
        os.environ['XYLEM_DIR'] = other
        S.cover('args win')
    # without a prefix, the files of this machine's root directory are read
    prefix = S.pick('prefix', ['args', 'env', 'both', 'no'])
    if prefix == 'no':
        S.assume(not os.path.exists('/etc/xylem'))
        S.cover('default prefix')
    if prefix in ('args', 'both'):
        argv += ['--prefix', w.prefix]
    if prefix == 'env':
        os.environ['XYLEM_PREFIX'] = w.prefix
    if prefix == 'both':
        os.environ['XYLEM_PREFIX'] = other
    nouser = S.bool('no user config')
    if nouser:
        argv.append('--no-user-config')
    config = load(argv)
    if private != 'no':
        order = ['private']
        S.cover('private')
    elif nouser:
        order = ['system']
        S.cover('system only')
    else:
        order = ['user', 'system']
        S.cover('both')
    want = None
    if prefix == 'no':
        order = [d for d in order if d != 'system']
    for d in order:
        if want is None and d in have:
            want = [have[d]]
    S.log('value', config.core_installers)
    S.check(config.core_installers == want,
            "the wrong configuration files are read")


@harness('C17', bounds="the configuration determined n times in one process; "
         "files in the user and the system directory created, changed and "
         "removed in between, with or without a command line argument",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['changed', 'created', 'removed', 'arguments'])
def files_are_read_anew(S, n):
    w = World(S)
    have = {}
    for i in range(n):
        given = S.bool('argument')
        argv = ['--prefix', w.prefix]
        if given:
            argv += ['--core-installers', 'arg']
            S.cover('arguments')
        for name, d in (('user', w.user), ('system', w.system)):
            path = os.path.join(d, 'config.yaml')
            if S.bool('file in ' + name):
                if i:
                    S.cover('changed' if name in have else 'created')
                have[name] = '%s%d' % (name, i)
                w.write(d, 'core_installers: [%s]\ninstall_from: {%s: [k%d]}'
                        '\n' % (have[name], name, i))
            elif name in have:
                os.remove(path)
                del have[name]
                S.cover('removed')
        config = load(argv)
        want = ['arg'] if given else None
        merged = {}
        for name in ('user', 'system'):
            if name in have:
                merged[name] = ['k%d' % i]
                if want is None:
                    want = [have[name]]
        S.log('value', [config.core_installers, sorted(config.install_from)])
        S.check(config.core_installers == want and
                config.install_from == merged,
                "the configuration is not that of the present files")


# -- typed values ---------------------------------------------------------------------

TYPES = ['string', 'bool', 'path', 'any', 'list of string', 'list of bool',
         'list of any', 'list of list of string', 'dict of string',
         'dict of any', 'dict of bool', 'merging dict of list of string',
         'list of dict of string', 'dict of path']


def make_type(t):
    import xylem.config_utils as c
    for p, cls in (('list of ', c.List), ('merging dict of ', c.MergingDict),
                   ('dict of ', c.Dict)):
        if t.startswith(p):
            return cls(make_type(t[len(p):]))
    return {'string': c.String, 'bool': c.Boolean, 'path': c.Path,
            'any': c.Any}[t]()


def gen_yaml(S, tag, depth, none=True):
    """Any YAML structure of bounded depth."""
    kinds = ['name', 'bool', 'int']
    if none:
        kinds += ['float', 'none']
    if depth:
        kinds += ['list', 'dict']
    k = S.pick(tag, kinds)
    if k == 'name':
        return S.name(tag + '.name')
    if k == 'bool':
        return S.bool(tag + '.bool')
    if k == 'int':
        return S.int(tag + '.int', -1, 1)
    if k == 'float':
        return 0.5
    if k == 'none':
        return None
    n = S.count(tag + '.n', 0, 2 if depth > 1 else 1)
    if k == 'list':
        return [gen_yaml(S, tag + '.x', depth - 1, False) for _ in range(n)]
    out = {}
    for i in range(n):
        key = 'k%d' % i
        if (i == 0 or depth == 1) and S.bool(tag + '.key'):
            key = 3 + i
        out[key] = gen_yaml(S, tag + '.x', depth - 1, False)
    return out


def is_text(v):
    return isinstance(v, str)


def read(t, v):
    """(valid, what the value stands for)"""
    if t == 'any' or v is None:
        return True, v
    if t == 'string':
        return is_text(v), v
    if t == 'bool':
        return v is True or v is False, v
    if t == 'path':
        return is_text(v), os.getcwd() + '/' + v if is_text(v) else None
    if t.startswith('list of '):
        if not isinstance(v, list):
            return False, None
        parts = [read(t[8:], x) for x in v]
        return all([p[0] for p in parts]), [p[1] for p in parts]
    if t.startswith('merging '):
        t = t[8:]
    if not isinstance(v, dict):
        return False, None
    out = {}
    good = True
    for k in v:
        ok, x = read(t[8:], v[k])
        if not ok or not is_text(k):
            good = False
        out[k] = x
    return good, out


@harness('C18', bounds="14 types of config items, any YAML value nested up "
         "to the given depth with up to two entries each, arbitrary names",
         quick=[{'types': TYPES[i:i + 2], 'depth': 2}
                for i in range(0, len(TYPES), 2)],
         thorough=[{'types': [t], 'depth': 3} for t in TYPES],
         covers=['valid', 'invalid', 'unset'])
def values_from_files(S, types, depth):
    from xylem.config_utils import ConfigValueError
    t = S.pick('type', types)
    typ = make_type(t)
    if t in ('string', 'bool', 'path'):
        depth = 1
    if t in ('any', 'list of any', 'dict of any') and depth > 2:
        depth = 2
    v = gen_yaml(S, 'value', depth)
    before = clone(v)
    how, got = attempt(typ.from_yaml, v)
    good, want = read(t, v)
    if v is not None:
        vhow, vgot = attempt(typ.verify, v)
        if good:
            S.check(vhow == 'ok' and vgot is v, "valid value not verified")
        else:
            S.check(vhow == 'exc' and isinstance(vgot, ConfigValueError),
                    "value of the wrong type passes verification")
    S.log('outcome', [how, got if how == 'ok' and 'path' not in t else None])
    S.check(v == before, "the value read from the file is modified")
    if v is None:
        S.check(how == 'ok' and typ.is_unset(got) and
                got == ({} if t.startswith('merging') else None),
                "null is not an unset value")
        S.cover('unset')
    elif good:
        S.check(how == 'ok', "valid value refused")
        S.check(got == want, "value changed while reading")
        S.check(type(got) == type(want) or is_text(want),
                "type of the value changed")
        S.cover('valid')
    else:
        S.check(how == 'exc' and isinstance(got, ConfigValueError),
                "value of the wrong type accepted")
        S.cover('invalid')


@harness('C18', bounds="lists of up to n names, given in up to two command "
         "line arguments, with or without brackets, quotes and spaces",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['brackets', 'none', 'several', 'empty', 'nested'])
def lists_from_the_command_line(S, n):
    typ = make_type(S.pick('type', ['list of string', 'list of any',
                                    'list of list of string']))
    nested = S.bool('nested')
    args = []
    want = []
    times = S.count('arguments', 1, 2)
    if times == 2:
        S.cover('several')
    for _ in range(times):
        items = []
        for _ in range(S.count('n', 0, n)):
            x = S.name('item')
            items.append('[' + x + ']' if nested else x)
            want.append([x] if nested else x)
        if not items:
            S.cover('empty')
        t = S.pick('separator', [',', ', ', ' , ']).join(items)
        if S.bool('brackets') or nested and len(items) == 1:
            t = '[' + t + ']'
            S.cover('brackets')
        else:
            S.cover('none')
        if nested:
            S.cover('nested')
        args.append(t)
    how, got = attempt(typ.from_command_line, args)
    ok = True
    if type(typ.element_type).__name__ == 'List':
        ok = nested or not want
    elif type(typ.element_type).__name__ == 'String':
        ok = not nested or not want
    S.log('outcome', [how, got if how == 'ok' else None])
    S.check((how == 'ok') == ok, "valid list refused or invalid one accepted")
    if ok:
        S.check(got == want, "list is not what the arguments say")


@harness('C18', bounds="dicts of up to n names, given in up to m command "
         "line arguments, with or without braces",
         quick=[{'n': 1, 'm': 3}], thorough=[{'n': 2}, {'n': 1, 'm': 4}],
         covers=['braces', 'none', 'several', 'empty', 'repeated'])
def dicts_from_the_command_line(S, n, m=2):
    from xylem.config_utils import ConfigValueError
    merging = S.bool('merging')
    typ = make_type('merging dict of list of string' if merging else
                    'dict of any')
    args = []
    want = {}
    repeated = False
    for _ in range(S.count('arguments', 1, m)):
        d = {}
        items = []
        for _ in range(S.count('n', 0, n)):
            k, v = S.name('key'), S.name('value')
            not_in = True
            for o in d:
                if o == k:
                    not_in = False
            S.assume(not_in)
            d[k] = [v]
            items.append(k + ': [' + v + ']')
        if not items:
            S.cover('empty')
        t = ', '.join(items)
        if S.bool('braces'):
            t = '{' + t + '}'
            S.cover('braces')
        else:
            S.cover('none')
        for k in d:
            for o in want:
                if o == k:
                    repeated = True
        if args:
            S.cover('several')
        want.update(d)
        args.append(t)
    how, got = attempt(typ.from_command_line, args)
    S.log('outcome', [how, got if how == 'ok' else None])
    if repeated:
        S.check(how == 'exc' and isinstance(got, ConfigValueError),
                "key given in two arguments not refused")
        S.cover('repeated')
    else:
        S.check(how == 'ok' and got == want,
                "dict is not what the arguments say")


WORDS = [('yes', True), ('no', False), ('true', True), ('False', False),
         ('on', True), ('OFF', False), ('maybe', None), ('1', None),
         ('[', None), ('yes, no', None), ('[yes]', None), ('{', None),
         ('yes: no', None)]


@harness('C18', bounds="all strings of up to n characters for strings, 13 "
         "words for booleans and 6 malformed texts for lists and dicts",
         quick=[{'n': 2}], thorough=[{'n': 4}],
         covers=['string', 'bool', 'unset', 'malformed'])
def scalars_from_the_command_line(S, n):
    from xylem.config_utils import ConfigValueError
    kind = S.pick('kind', ['string', 'bool', 'unset', 'malformed'])
    S.cover(kind)
    if kind == 'string':
        x = S.text('text', n)
        S.check(make_type('string').from_command_line(x) == x,
                "string argument is not taken as it is")
        return
    if kind == 'bool':
        w, want = S.pick('word', WORDS)
        how, got = attempt(make_type('bool').from_command_line, w)
        S.log('outcome', [how])
        if want is None:
            S.check(how == 'exc' and isinstance(got, ConfigValueError),
                    "invalid boolean accepted")
        else:
            S.check(how == 'ok' and got is want, "boolean misread")
        return
    t = S.pick('type', TYPES)
    typ = make_type(t)
    if kind == 'unset':
        S.check(typ.is_unset(typ.from_command_line(None)),
                "argument not given is not unset")
        return
    if t in ('string', 'path', 'any'):
        S.reject()
    text = S.pick('text', ['[a', '{a: b', 'a]', '}', '"', "b: [a"])
    if t == 'bool':
        arg = text
    else:
        arg = [text]
    how, e = attempt(typ.from_command_line, arg)
    S.log('outcome', [how])
    S.check(how == 'exc' and isinstance(e, ConfigValueError),
            "malformed argument is not refused as config error")


@harness('C18', bounds="all paths of up to n characters of '/', '.', '~', "
         "'$', braces, '%', blanks and a letter that is the name of a variable, in a given working and home directory, changed since "
         "another path was used or not",
         quick=[{'n': 4}, {'n': 4, 'chars': '/${a}%'},
                {'n': 3, 'chars': '/a \n'}],
         thorough=[{'n': 6}, {'n': 5, 'chars': '/${a}%'},
                   {'n': 5, 'chars': '/a \n.'}],
         covers=['absolute', 'relative', 'home', 'parent'])
def paths_are_normalized(S, n, chars='/.~a'):
    w = World(S)
    alphabet = [ord(c) for c in chars]
    os.environ['a'] = 'value'
    x = S.text('path', n, 1, alphabet)
    S.assume(not x.startswith('//'))
    if x.startswith('~'):
        S.assume(len(x) == 1 or x[1] == '/')
    typ = make_type('path')
    base, home = w.base, w.home
    if S.bool('moved'):
        typ.from_yaml('a')
        typ.from_command_line('~/a')
        base, home = w.prefix, w.private
        os.chdir(base)
        os.environ['HOME'] = home
    got = typ.from_yaml(x) if S.bool('file') else typ.from_command_line(x)
    rest = x
    if x[0] == '~':
        parts = home.split('/')
        rest = x[1:]
        S.cover('home')
    elif x[0] == '/':
        parts = []
        S.cover('absolute')
    else:
        parts = base.split('/')
        S.cover('relative')
    parts = [p for p in parts if p]
    for c in rest.split('/'):
        if c == '' or c == '.':
            continue
        if c == '..':
            parts = parts[:-1]
            S.cover('parent')
        else:
            parts.append(c)
    S.check(got == '/' + '/'.join(parts), "path is not expanded and "
            "normalized")


# -- completeness ------------------------------------------------------------------------

def check_complete(S, config, given):
    S.check(sorted(config.keys()) == sorted(set(
        n.split('/')[0] for n in DEFAULTS)), "entries of the configuration "
        "missing or unknown entries in it")
    for n in sorted(DEFAULTS):
        if n in given:
            S.check(item_of(config, n) == given[n], "a given value is lost")
        else:
            S.check(item_of(config, n) == DEFAULTS[n] and
                    type(item_of(config, n)) is type(DEFAULTS[n]),
                    "an unset item has not its default value")
    S.check(config.disabled_plugins.os is config['disabled_plugins']['os'],
            "attribute access to the configuration differs")


BAD_VALUES = {
    'list': [5, True, {}, 'a', [5], [{}]],
    'bool': [0, 'x', [], {}],
    'path': [5, True, [], {}],
    'merging list': [5, [], 'a', {'a': 'b'}, {'a': [5]}, {5: ['a']},
                     {'a': {}}],
    'merging dict': [5, [], 'a', {'a': 'b'}, {'a': ['b']}, {5: {}},
                     {'a': {5: 1}}],
}


@harness('C19', bounds="configs passed as dict with one item of any kind "
         "having a valid value, null, or any of up to seven wrong values; "
         "groups null or of a wrong type; unknown entries",
         covers=['valid', 'invalid', 'group null', 'group invalid',
                 'unknown', 'os_override'])
def configs_are_complete_or_refused(S):
    from xylem.config import ensure_config
    from xylem.config_utils import ConfigValueError, ConfigDict
    data = {}
    given = {}
    bad = False
    what = S.pick('what', ['item', 'group', 'override', 'nothing'])
    if what == 'item':
        name, kind, _ = S.pick('item', ITEMS)
        state = S.pick('value', ['valid', 'null'] + list(
            range(len(BAD_VALUES[kind]))))
        if state == 'valid':
            v = gen_value(S, 'v', kind, 1)[0]
            given[name] = v
            S.cover('valid')
        elif state == 'null':
            v = None
        else:
            v = clone(BAD_VALUES[kind][state])
            bad = True
            S.cover('invalid')
        if '/' in name:
            g, s = name.rsplit('/', 1)
            data[g] = {s: v}
            if S.bool('unknown in group'):
                data[g]['unknown'] = 5
        else:
            data[name] = v
    elif what == 'group':
        g = S.pick('group', ['os_options', 'disabled_plugins'])
        v = S.pick('value', [None, {}, [], 5, 'a', True])
        data[g] = v
        if v is None:
            S.cover('group null')
        elif v != {} or isinstance(v, list):
            bad = True
            S.cover('group invalid')
    elif what == 'override':
        v = S.pick('value', ['name', 'version', 5, [], {}])
        if v == 'name':
            v = S.name('os')
            given['os_override'] = (v, None)
        elif v == 'version':
            o, x = S.name('os'), S.name('version')
            v = o + ':' + x
            given['os_override'] = (o, x)
        else:
            bad = True
        data['os_override'] = v
        S.cover('os_override')
    if S.bool('unknown'):
        data['unknown'] = S.pick('unknown value', [5, None, {'a': []}])
        S.cover('unknown')
    before = clone(data)
    how, config = attempt(ensure_config, data)
    S.log('outcome', [how])
    S.check(data == before, "the given config is modified")
    S.check((how == 'exc') == bad, "valid config refused or invalid one "
            "accepted")
    if bad:
        S.check(isinstance(config, ConfigValueError),
                "invalid config is not reported as config error")
        return
    S.check(isinstance(config, ConfigDict), "result is no config")
    check_complete(S, config, given)


TEXTS = {
    'null': True, '': True, '# comment\n': True, '{}': True,
    'core_installers: [a]': True, 'os_options:\n': True,
    '[]': False, 'text': False, '5': False, '5: a': False,
    'cache_dir: 2014-01-01': False, 'cache_dir: "2014-01-01"': True,
    'null: a': False, 'core_installers: [': False, '{': False,
    'a: b: c': False, 'true': False,
    'core_installers: a': False, 'os_options: 5': False,
    'disabled_plugins: [a]': False, 'unknown: [1, 2]': True,
    '\xff': False, '*a': False, '!!python/object:os.system {}': False,
    '{[a]: b}': False,
}


@harness('C19', bounds="two config files, one with any of 25 texts (not "
         "YAML, no mapping, other keys, wrong types, empty), missing, or a "
         "directory; the other fine, missing or not read",
         covers=['fine', 'refused', 'missing'])
def config_files_are_read_or_refused(S):
    w = World(S)
    from xylem.config_utils import ConfigValueError
    name = S.name('name')
    layer, other = S.pick('layer', [('user', 'system'), ('system', 'user')])
    dirs = {'user': w.user, 'system': w.system}
    kind = S.pick('kind', ['text', 'missing', 'directory', 'not utf-8'])
    given = {}
    good = True
    path = os.path.join(dirs[layer], 'config.yaml')
    if kind == 'text':
        text = S.pick('text', sorted(TEXTS))
        good = TEXTS[text]
        w.write(dirs[layer], text)
        if text == 'core_installers: [a]':
            given['core_installers'] = ['a']
    elif kind == 'directory':
        os.mkdir(path)
    elif kind == 'not utf-8':
        with open(path, 'wb') as f:
            f.write(b'core_installers: [a\xff]\n')
        good = False
    else:
        S.cover('missing')
    if S.bool('other'):
        w.write(dirs[other], 'disabled_plugins: {os: [%s]}\n' % name)
        given['disabled_plugins/os'] = [name]
    argv = ['--prefix', w.prefix]
    if S.bool('no user config'):
        argv.append('--no-user-config')
        if layer == 'user':
            good = True
            if 'core_installers' in given:
                del given['core_installers']
        elif 'disabled_plugins/os' in given:
            del given['disabled_plugins/os']
    how, config = attempt(load, argv)
    S.log('outcome', [how])
    if not good:
        S.check(how == 'exc' and isinstance(config, ConfigValueError),
                "invalid config file is not refused as such")
        S.cover('refused')
        return
    S.check(how == 'ok', "valid config file refused")
    for n in ('cache_dir', 'sources_dir'):
        given[n] = item_of(config, n)
    check_complete(S, config, given)
    S.cover('fine')


@harness('C19', bounds="two configurations created one after the other in "
         "any of four ways, the first modified in any item in place",
         covers=['list', 'dict', 'scalar'])
def configurations_are_independent(S):
    w = World(S)
    from xylem.config import ensure_config, get_config, set_config
    from xylem.config import get_default_config
    if S.bool('file'):
        w.write(w.user, 'core_installers: [x]\ninstall_from: {y: [z]}\n')

    def make(tag):
        return S.pick(tag, [
            get_default_config, lambda: ensure_config({}),
            lambda: ensure_config({'install_from': {'y': ['z']},
                                   'core_installers': ['x']}),
            lambda: load(['--prefix', w.prefix])])
    f, g = make('first'), make('second')
    reference = clone(g())
    a = f()
    before = g()
    name, kind, _ = S.pick('item', ITEMS)
    v = item_of(a, name)
    if isinstance(v, list):
        v.append('new')
        S.cover('list')
    elif isinstance(v, dict):
        v['new'] = ['n']
        for k in v:
            if isinstance(v[k], list):
                v[k].append('new')
        S.cover('dict')
    elif '/' in name:
        group, sub = name.split('/')
        a[group][sub] = 'new'
    else:
        a[name] = 'new'
        S.cover('scalar')
    after = g()
    S.check(clone(before) == reference and clone(after) == reference,
            "modifying one configuration changes others")
    S.check(ensure_config(a) is a, "a config is not used as it is")
    old = get_config()
    S.check(ensure_config(None) is old, "without config the global one is "
            "not used")
    set_config(a)
    S.check(get_config() is a and ensure_config(None) is a,
            "the global config cannot be set")
    for bad in (5, 'a', [], True):
        how, e = attempt(ensure_config, bad)
        S.check(how == 'exc' and isinstance(e, ValueError),
                "something else accepted as config")


# -- directories ------------------------------------------------------------------------

@harness('C19', bounds="two or three configurations, each with a list, a "
         "merged dict and an item of either group set or not, merged directly or "
         "with the defaults", covers=['merged', 'defaults', 'entry added'])
def merged_configurations_are_kept(S):
    World(S)
    from xylem.config import get_config_description
    from xylem.config_utils import config_from_parsed_yaml
    from xylem.config_utils import merge_configs, merge_with_defaults
    description = get_config_description()
    configs = []
    for i in range(S.count('n', 1, 3)):
        data = {}
        if S.bool('list'):
            data['core_installers'] = [S.name('installer')]
        if S.bool('dict'):
            data['install_from'] = {S.name('key'): [S.name('value')]}
        if S.bool('group'):
            data['disabled_plugins'] = {'os': [S.name('os')]}
        elif i and S.bool('small group'):
            data['os_options'] = {'features': [S.name('feature')]}
        configs.append(config_from_parsed_yaml(data, description))
    before = [clone(dict(c)) for c in configs]
    if len(configs) == 1:
        got = merge_with_defaults(description, configs[0])
        S.cover('defaults')
    else:
        got = merge_configs(description, *configs)
        S.cover('merged')
    S.check([clone(dict(c)) for c in configs] == before,
            "merging modifies a configuration")
    for c in configs:
        S.check(c is not got, "the merged configuration is not a new one")
    if isinstance(got['install_from'], dict):
        S.cover('entry added')
        shown = clone(dict(got))
        got['install_from']['new entry'] = ['n']
        S.check([clone(dict(c)) for c in configs] == before,
                "adding to a merged configuration modifies what it was "
                "merged from")
        del got['install_from']['new entry']
        S.check(clone(dict(got)) == shown, "entry not removed")
    lists = [c['core_installers'] for c in before
             if c['core_installers'] is not None] + [None]
    groups = [c['disabled_plugins']['os'] for c in before
              if c['disabled_plugins']['os'] is not None]
    groups.append([] if len(configs) == 1 else None)
    dicts = {}
    for c in reversed(before):
        for k in c['install_from']:
            dicts[k] = c['install_from'][k]
    S.check(got['core_installers'] == lists[0], "wrong merged list")
    S.check(got['disabled_plugins']['os'] == groups[0],
            "wrong merged group entry")
    small = [c['os_options']['features'] for c in before
             if c['os_options']['features'] is not None]
    small.append(None)
    S.check(got['os_options']['features'] == small[0],
            "wrong merged entry of the small group")
    S.check(got['install_from'] == dicts, "wrong merged dict")


@harness('C20', bounds="sources directory and cache directory each given on "
         "the command line, in a file, or not; user sources enabled on the "
         "command line, in a file, or not; private directory and prefix each "
         "given as argument, in the environment, both or not at all, as "
         "absolute or relative path or below the home directory, or on the "
         "command line empty",
         quick=[{'which': w} for w in ('cache_dir', 'sources_dir')],
         covers=['explicit', 'private', 'user', 'system', 'default prefix',
                 'environment', 'relative', 'home', 'empty'])
def location_of_cache_and_sources(S, which):
    w = World(S)
    argv = []
    lines = {'user': '', 'system': ''}

    def given(tag):
        """(written path, absolute path)"""
        n = S.name(tag)
        style = S.pick(tag + '.style', ['absolute', 'relative', 'home'])
        if style == 'absolute':
            return '/' + n, '/' + n
        S.cover(style)
        if style == 'relative':
            return n, w.base + '/' + n
        return '~/' + n, w.home + '/' + n
    explicit = S.pick('explicit', ['no', 'args', 'user', 'system'])
    want = None
    if explicit != 'no':
        text, want = given('explicit path')
        if explicit == 'args':
            argv += ['--' + which.replace('_', '-'), text]
        else:
            lines[explicit] += '%s: %s\n' % (which, text)
    else:
        # an unrelated setting
        if S.bool('other given'):
            lines['system'] += '%s: /elsewhere\n' % (
                'cache_dir' if which == 'sources_dir' else 'sources_dir')
    us = S.pick('user sources', ['no', 'args', 'user', 'system', 'disabled'])
    if us == 'args':
        argv += ['--user-sources', 'yes']
    elif us == 'disabled':
        argv += ['--user-sources', 'no']
        lines['user'] += 'user_sources: yes\n'
    elif us != 'no':
        lines[us] += 'user_sources: yes\n'
    private = S.pick('private', ['no', 'args', 'env', 'both']) \
        if explicit == 'no' or explicit == 'args' else 'no'
    pdir = None
    if private in ('args', 'both'):
        # an empty path is the working directory
        text, pdir = ('', w.base) if S.bool('private empty') else \
            given('private')
        argv += ['--xylem-dir', text]
        if private == 'both':
            os.environ['XYLEM_DIR'] = '/other'
    elif private == 'env':
        text, pdir = given('private')
        os.environ['XYLEM_DIR'] = text
        S.cover('environment')
    # the system files are read below the prefix
    prefix = S.pick('prefix', ['args', 'env', 'both'] if lines['system'] or
                    private == 'no' and explicit == 'no' and us == 'system'
                    else ['args', 'no', 'env', 'both'])
    if lines['system'] or prefix != 'no':
        root = w.prefix
        style = S.pick('prefix style', ['absolute', 'relative', 'empty']
                       if prefix in ('args', 'both') and not lines['system']
                       else ['absolute', 'relative'])
        text = {'absolute': w.prefix, 'relative': 'pre', 'empty': ''}[style]
        if style == 'empty':
            root = w.base
            S.cover('empty')
        if prefix in ('args', 'both'):
            argv += ['--prefix', text]
        if prefix == 'env':
            os.environ['XYLEM_PREFIX'] = text
            S.cover('environment')
        if prefix == 'both':
            os.environ['XYLEM_PREFIX'] = '/other'
    else:
        root = ''
        S.cover('default prefix')
    for layer, d in (('user', w.user), ('system', w.system)):
        if lines[layer]:
            w.write(d, lines[layer])
    config = load(argv)
    sub = 'cache' if which == 'cache_dir' else 'sources.d'
    enabled = us == 'args' or private == 'no' and us in ('user', 'system')
    if want is not None:
        S.cover('explicit')
    elif pdir is not None:
        want = pdir + '/' + sub
        S.cover('private')
    elif enabled:
        want = w.user + '/' + sub
        S.cover('user')
    else:
        S.cover('system')
        if which == 'cache_dir':
            want = root + '/var/cache/xylem'
        else:
            want = root + '/etc/xylem/sources.d'
    S.check(config[which] == want, "wrong %s" % which.replace('_', ' '))
    S.check(config.user_sources == enabled, "user sources not as set")


@harness('C20', bounds="a configuration from a dict with or without arbitrary "
         "absolute sources and cache directories, the default configuration, "
         "or none at all, given to a sources context",
         covers=['given', 'default', 'no configuration', 'environment'])
def directories_without_command_line(S):
    World(S)
    from xylem.config import ensure_config, get_default_config
    from xylem.sources import SourcesContext
    data = {}
    # these are for the command line program only
    if S.bool('environment'):
        v = S.pick('variable', ['XYLEM_PREFIX', 'XYLEM_DIR'])
        os.environ[v] = S.pick('value', ['/other', 'other', ''])
        S.cover('environment')
    for k in ('sources_dir', 'cache_dir'):
        if S.bool(k):
            data[k] = '/' + S.name(k)
    env.set_entry_points('xylem.specs', [
        ('rules', 'xylem.specs.plugins.rules:definition')])
    if data:
        config = ensure_config(data)
        S.cover('given')
    else:
        config = S.pick('config', ['dict', 'default', None])
        S.cover('default' if config else 'no configuration')
        if config == 'dict':
            config = ensure_config({})
        elif config == 'default':
            config = get_default_config()
    ctx = SourcesContext(config)
    S.log('dirs', [ctx.sources_dir, ctx.cache_dir])
    S.check(ctx.sources_dir == data.get('sources_dir',
                                        '/etc/xylem/sources.d'),
            "wrong sources dir")
    S.check(ctx.cache_dir.startswith(
        data.get('cache_dir', '/var/cache/xylem') + '/'), "wrong cache dir")
    S.check(ctx.is_default_dirs() == (
        data.get('sources_dir') in (None, '/etc/xylem/sources.d') and
        data.get('cache_dir') in (None, '/var/cache/xylem')),
        "not told whether the directories are the default ones")


# -- override of the OS ------------------------------------------------------------------

def strip(t):
    while t and t[0] == ' ':
        t = t[1:]
    while t and t[len(t) - 1] == ' ':
        t = t[:len(t) - 1]
    return t


def parse(t):
    """(name, version or None, features or None)"""
    features = None
    for i in range(len(t)):
        if t[i] == '&':
            rest = strip(t[i + 1:])
            features = []
            part = ''
            for c in rest:
                if c == ',':
                    features.append(strip(part))
                    part = ''
                else:
                    part += c
            if rest:
                features.append(strip(part))
            t = t[:i]
            break
    for i in range(len(t)):
        if t[i] == ':':
            return strip(t[:i]), strip(t[i + 1:]), features
    return strip(t), None, features


@harness('C21', bounds="all texts of up to n characters among letter, "
         "digit, space and the separators ':', '&' and ','",
         quick=[{'n': 5}], thorough=[{'n': 7}],
         covers=['name', 'version', 'features', 'no features'])
def parts_of_the_override(S, n):
    from xylem.config import parse_os_override
    x = S.text('text', n, 0, [ord(c) for c in 'a1 :&,'])
    got = parse_os_override(x)
    name, version, features = parse(x)
    S.check(got[0] == name and got[1] == version and got[2] == features,
            "os override is split into the wrong parts")
    S.cover('name' if version is None else 'version')
    if features == []:
        S.cover('no features')
    elif features:
        S.cover('features')


@harness('C21', bounds="override of arbitrary OS with or without version and "
         "up to n features, on the command line, in either file or in a "
         "dict; features set elsewhere as well",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['features', 'no features', 'kept', 'none', 'args wins'])
def override_in_the_configuration(S, n):
    w = World(S)
    from xylem.config import ensure_config
    osn = S.name('os')
    ver = S.name('version') if S.bool('with version') else None
    feats = None
    text = osn
    if ver is not None:
        text += ':' + ver
    if S.bool('with features'):
        feats = [S.name('feature') for _ in range(S.count('n', 0, n))]
        text += '&' + ','.join(feats)
    where = S.pick('where', ['args', 'user', 'system', 'dict', 'none'])
    opt = None
    if S.bool('options'):
        opt = [S.name('option')]
    if where == 'dict':
        d = {'os_override': text}
        if opt:
            d['os_options'] = {'features': opt}
        config = ensure_config(d)
    else:
        argv = ['--prefix', w.prefix]
        lines = {'user': '', 'system': ''}
        if where == 'args':
            argv += ['--os', text]
            if S.bool('also in file'):
                lines['system'] = 'os_override: other:x&y\n'
                S.cover('args wins')
        elif where != 'none':
            lines[where] += 'os_override: "%s"\n' % text
        if opt:
            o = S.pick('options in', ['args', 'user', 'system'])
            if o == 'args':
                argv += ['--os-features', opt[0]]
            else:
                lines[o] += 'os_options: {features: [%s]}\n' % opt[0]
        for layer, d in (('user', w.user), ('system', w.system)):
            if lines[layer]:
                w.write(d, lines[layer])
        config = load(argv)
    S.log('override', [list(config.os_override) if config.os_override
                       else None, config.os_options.features])
    if where == 'none':
        S.check(config.os_override is None and
                config.os_options.features == opt,
                "override though none is given")
        S.cover('none')
        return
    S.check(tuple(config.os_override) == (osn, ver),
            "overridden OS is not the given one")
    if feats is not None:
        S.check(config.os_options.features == feats,
                "features of the override are not used")
        S.cover('features' if feats else 'no features')
    else:
        S.check(config.os_options.features == opt,
                "features changed by an override without features")
        S.cover('kept')


# -- descriptions --------------------------------------------------------------------

@harness('C22', bounds="up to n items added in any order, in or outside of "
         "two groups, with names that are equal or not to each other and to "
         "the groups, on the command line under any of three names or not; "
         "their type the same object or not",
         quick=[{'n': 3}, {'n': 2, 'shared': 1}, {'n': 2, 'deep': 1}],
         thorough=[{'n': 4}, {'n': 3, 'shared': 1}, {'n': 3, 'deep': 1}],
         covers=['added', 'duplicate', 'group is item', 'item is group',
                 'argument'])
def conflicting_items_are_refused(S, n, shared=0, deep=0):
    from xylem.config_utils import ConfigDescription, ConfigDescriptionError
    from xylem.config_utils import config_from_defaults, String
    description = ConfigDescription('config.yaml')
    accepted = []            # (name, argument)
    # the type as class or one type for several items
    typ = String() if shared else String
    for i in range(S.count('n', 1, n)):
        name = S.pick('name', ['a', 'b', 'a/b', 'a/b/c', 'a/c'] if deep else
                      ['a', 'b', 'a/b', 'b/a', 'a/a', 'a_b'])
        arg = S.pick('argument', [None, 'derived', 'x', '--x'])
        kw = {'type': typ, 'default': str(i)}
        if arg == 'derived':
            kw['command_line'] = True
            argname = name.replace('/', '-').replace('_', '-')
        elif arg is None:
            argname = None
        else:
            kw['command_line_argument'] = arg
            argname = 'x'
        names = [a[0] for a in accepted]
        bad = False
        if name in names:
            bad = True
            S.cover('duplicate')
        if name in [x.rsplit('/', 1)[0] for x in names if '/' in x]:
            bad = True
            S.cover('item is group')
        if '/' in name and name.rsplit('/', 1)[0] in names:
            bad = True
            S.cover('group is item')
        if argname is not None and argname in [a[1] for a in accepted]:
            bad = True
            S.cover('argument')
        how, e = attempt(description.add, name, **kw)
        S.check((how == 'exc') == bad, "conflicting item accepted or other "
                "item refused")
        if bad:
            S.check(isinstance(e, ConfigDescriptionError),
                    "conflict is not reported as such")
        else:
            accepted.append((name, argname, str(i)))
            S.cover('added')
        check_description(S, description, accepted)
    config = config_from_defaults(description)
    want = {}
    for name, arg, v in accepted:
        if '/' in name:
            g, s = name.rsplit('/', 1)
            want.setdefault(g, {})[s] = v
        else:
            want[name] = v
    S.check(clone(config) == want, "configuration does not consist of the "
            "accepted items")
    parser = argparse.ArgumentParser()
    description.add_arguments(parser)
    names = []
    for a in parser._actions:
        names += [o for o in a.option_strings if o not in ('-h', '--help')]
    S.check(sorted(names) == sorted('--' + a for _, a, _ in accepted if a),
            "wrong command line arguments")


def check_description(S, d, accepted):
    S.check([i.name for i in d.itemlist] == [a[0] for a in accepted] and
            sorted(d.items) == sorted(a[0] for a in accepted),
            "items are lost or refused items kept")
    S.check(sorted(d.command_line_arguments) == sorted(
        a[1] for a in accepted if a[1] is not None),
        "arguments are lost or those of refused items kept")
    groups = {}
    for name, _, _ in accepted:
        if '/' in name:
            g, s = name.rsplit('/', 1)
            groups.setdefault(g, []).append(s)
    S.check(sorted(d.groups) == sorted(groups),
            "groups are lost or those of refused items kept")
    for g in groups:
        S.check(sorted(d.groups[g]) == sorted(groups[g]),
                "items of a group lost or refused ones kept")


# -- printing the configuration ----------------------------------------------------------

@harness('C23', bounds="any one item of the configuration set to an "
         "arbitrary value on the command line or in a file, the OS "
         "overridden or not", covers=['printed', 'not printed', 'override'])
def printed_configuration(S):
    import io
    w = World(S)
    from xylem.yaml_utils import load_yaml
    argv = ['--prefix', w.prefix]
    name, kind, arg = S.pick('item', ITEMS)
    v, text, cl = gen_value(S, 'v', kind, 1)
    if S.bool('args'):
        argv += ['--' + arg, cl]
    else:
        w.write(w.user, to_file([(name, text)]))
    over = None
    if S.bool('override'):
        over = [S.name('os'), S.name('version')]
        argv += ['--os', over[0] + ':' + over[1]]
        S.cover('override')
    printing = S.bool('print')
    out, err = io.StringIO(), io.StringIO()
    old = sys.stdout, sys.stderr
    if printing:
        argv.append('--print-config')
    sys.stdout, sys.stderr = out, err
    code = 'none'
    try:
        load(argv)
    except SystemExit as e:
        code = e.code
    finally:
        sys.stdout, sys.stderr = old
    S.log('exit', code)
    if not printing:
        S.check(code == 'none' and out.getvalue() == '',
                "something is printed or the program ends without reason")
        S.cover('not printed')
        return
    S.check(code in (0, None), "printing the configuration fails")
    t = out.getvalue()
    if t.endswith('\x1b[0m\n'):
        t = t[:-5]
    d = load_yaml(t)
    got = item_of(d, name)
    S.check(got == v, "printed value is not the effective one")
    S.check(d['os_override'] == over, "printed override is not the given one")
    for n in sorted(DEFAULTS):
        if n not in (name, 'os_override', 'cache_dir', 'sources_dir'):
            S.check(item_of(d, n) == DEFAULTS[n], "printed value of an "
                    "unset item is not the default")
    S.cover('printed')
