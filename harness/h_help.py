"""What the help shows."""

import argparse
import os

import env
from symx.hapi import harness
from h_commands import Machine


def blank(c):
    return c == ' ' or c == '\n'


def words_of(text):
    words = ['']
    for c in text:
        if blank(c):
            words.append('')
        else:
            words[-1] += c
    return [w for w in words if w != '']


def wrapped(words, width):
    """The words in lines, as many in each as fit."""
    lines = []
    for w in words:
        if lines and len(lines[-1]) + 1 + len(w) <= width:
            lines[-1] += ' ' + w
        else:
            lines.append(w)
    return lines


def raw_lines(text):
    """Lines without the indentation they have in common."""
    lines = ['']
    for c in text:
        if c == '\n':
            lines.append('')
        else:
            lines[-1] += c
    if words_of(lines[-1]) == []:
        lines.pop()
    indents = []
    for line in lines:
        n = 0
        while n < len(line) and line[n] == ' ':
            n += 1
        indents.append(n if n < len(line) else None)
    common = min([n for n in indents if n is not None] or [0])
    return ['' if indents[i] is None else lines[i][common:]
            for i in range(len(lines))]


def expected(text, width):
    """The lines that are to be shown for a text."""
    # the text in pieces, and the number of line breaks in front of each
    pieces = []
    breaks = 0
    for c in text:
        if c == '\n':
            breaks += 1
            continue
        if not pieces or breaks >= 3:
            # runs in front of the first piece end a paragraph, too
            pieces.append([breaks >= 3, ''])
        elif breaks:
            pieces[-1][1] += '\n' * breaks
        pieces[-1][1] += c
        breaks = 0
    out = []
    for i, (_, piece) in enumerate(pieces):
        if i:
            out.append('')
        marker = 0
        while marker < len(piece) and blank(piece[marker]):
            marker += 1
        if piece[marker:marker + 2] == 'R|':
            out += raw_lines(' ' * (marker + 2) + piece[marker + 2:])
            continue
        blocks = ['']
        j = 0
        while j < len(piece):
            if piece[j:j + 2] == '\n\n':
                blocks.append('')
                j += 2
            else:
                blocks[-1] += piece[j]
                j += 1
        for block in blocks:
            out += wrapped(words_of(block), width)
    return out


def collapsed(lines):
    """The lines without empty ones behind empty ones."""
    return [lines[i] for i in range(len(lines))
            if lines[i] != '' or not i or lines[i - 1] != '']


@harness('C47', bounds="any text of letters, spaces and line breaks of up to "
         "n characters between two words, any of its paragraphs raw or not, "
         "as description, in a group or as help of an option",
         quick=[{'n': 4}], thorough=[{'n': 7}], history=False,
         covers=['wrapped', 'paragraphs', 'line break', 'raw', 'group',
                 'option', 'description', 'breaks'])
def help_texts(S, n):
    from xylem.config_utils import ConfigHelpFormatter
    width = 20                  # what argparse leaves for the help of options
    alphabet = [ord('x'), ord(' '), ord('\n')]
    place = S.pick('place', ['description', 'group', 'option'])
    raw = S.pick('raw', ['no', 'first', 'last', 'both'])
    if S.bool('only breaks'):
        middle = '\n' * S.count('breaks', 0, 7)
        S.cover('breaks')
    else:
        middle = S.text('text', n, 0, alphabet)
    mark = ''
    if raw in ('last', 'both'):
        mark = '\n\n\n' + S.pick('in front', ['', '  ']) + 'R|'
    text = 'abcdefghi' + middle + mark + 'jklmnopqr'
    S.assume(all([len(w) <= width for w in words_of(text)]))
    if raw in ('first', 'both'):
        text = 'R|' + text
    indent = {'description': 0, 'group': 2, 'option': 24}[place]

    def formatter(prog):
        return ConfigHelpFormatter(
            prog, width=width + 2 * indent if indent < 9 else width + indent,
            max_help_position=24)
    p = argparse.ArgumentParser(
        prog='x', add_help=False, formatter_class=formatter,
        description=text if place == 'description' else None)
    g = p.add_argument_group('g', description=text if place == 'group'
                             else None)
    if place != 'description':
        g.add_argument('--' + 'o' * 30, metavar='M', help=text if place == 'option'
                       else None)
    S.cover(place)
    shown = p.format_help()
    lines = []
    for line in shown.split('\n'):
        lines.append(line)
    # the part that is to show the text
    start = 0
    while not ('abcdefghi' in lines[start]):
        start += 1
        S.check(start < len(lines), "the text is not shown")
    end = start
    while not ('jklmnopqr' in lines[end]):
        end += 1
        S.check(end < len(lines), "the end of the text is not shown")
    got = []
    for line in lines[start:end + 1]:
        line = line.rstrip(' ') if line.strip(' ') == '' else line
        if line == '' or place == 'description':
            got.append(line)
            continue
        S.check(line[:indent] == ' ' * indent, "wrong indentation")
        got.append(line[indent:])
    want = expected(text, width)
    S.log('shown', got)
    # argparse has its say on lines without any indentation
    exact = got == want if place == 'option' else \
        collapsed(got) == collapsed(want)
    S.check(exact, "the text is not shown in full and as it is laid out")
    if raw != 'no':
        S.cover('raw')
    else:
        if '' in want:
            S.cover('paragraphs')
        elif '\n\n' in middle:
            S.cover('line break')
        elif len(want) > 1:
            S.cover('wrapped')


def squeezed(text):
    out = []
    for word in text.split(' '):
        word = word.strip('\n')
        if word:
            out += [w for w in word.split('\n') if w]
    return ' '.join(out)


@harness('C47', bounds="up to n items of any type, in a group or not, with "
         "or without help, default, other argument name and metavar, on the "
         "command line or not; any names",
         quick=[{'n': 1}], thorough=[{'n': 2}], history=False,
         covers=['shown', 'not shown', 'group', 'default', 'no default',
                 'other argument', 'metavar', 'falsy'])
def items_are_explained(S, n):
    from xylem.config_utils import ConfigDescription, ConfigHelpFormatter
    from xylem import config_utils as cu
    types = {'String': (lambda: cu.String, 'STRING'),
             'Boolean': (lambda: cu.Boolean, 'yes|no'),
             'Path': (lambda: cu.Path, 'PATH'),
             'List': (lambda: cu.List(cu.String), '"item1,item2,..."'),
             'Dict': (lambda: cu.Dict(cu.String), '"key:value,key2:value2,'
                      '..."'),
             'MergingDict': (lambda: cu.MergingDict(cu.String),
                             '"key:value,key2:value2,..."'),
             'Any': (lambda: cu.Any, None)}
    d = ConfigDescription('config')
    wants = []
    hidden = []
    for i in range(n):
        kind = S.pick('type', sorted(types))
        make, var = types[kind]
        name = 'item_%d' % i
        if S.bool('group'):
            name = 'gr/' + name
            S.cover('group')
        k = {}
        if S.bool('help'):
            k['help'] = 'tells %d words' % i
        value = S.pick('default', [None, 'some', 'falsy'])
        if value == 'falsy':
            value = {'Boolean': False, 'List': [], 'Dict': {},
                     'MergingDict': None}.get(kind, '')
            if value is not None:
                k['default'] = value
                S.cover('falsy')
        elif value is not None:
            value = {'Boolean': True, 'List': ['v%d' % i],
                     'Dict': {'k': 'v%d' % i},
                     'MergingDict': {'k': 'v%d' % i}}.get(kind, 'v%d' % i)
            k['default'] = value
        arg = S.pick('argument', [None, 'other%d' % i])
        meta = S.pick('metavar', [None, 'VAR%d' % i])
        on = S.pick('command line', [None, True, False])
        if arg is not None:
            k['command_line_argument'] = arg
        if meta is not None:
            k['command_line_metavar'] = meta
        if on is not None:
            k['command_line'] = on
        d.add(name, type=make(), **k)
        flag = '--' + (arg or name.replace('_', '-').replace('/', '-'))
        if not (on or on is None and (arg or meta)):
            hidden.append((flag, k.get('help')))
            continue
        want = flag + ' ' + (meta or var or
                             flag[2:].replace('-', '_').upper())
        if 'help' in k:
            want += ' ' + k['help']
        info = []
        if '/' in name or arg is not None:
            info.append('config: `%s`' % name)
            S.cover('other argument')
        info.append('type: ' + kind)
        if value is not None:
            info.append('default: %s' % (value,))
            S.cover('default')
        else:
            S.cover('no default')
        if meta is not None:
            S.cover('metavar')
        wants.append((want, ['(' + info[0]] + info[1:]))
    p = argparse.ArgumentParser(
        prog='x', add_help=False,
        formatter_class=lambda prog: ConfigHelpFormatter(prog, width=300))
    d.add_arguments(p)
    shown = squeezed(p.format_help())
    S.log('shown', shown)
    for want, parts in wants:
        S.check(want in shown, "an option is not explained")
        for part in parts:
            S.check(part in shown, "what an option sets is not told")
        S.cover('shown')
    for flag, text in hidden:
        S.check(flag not in shown and (text is None or text not in shown),
                "an item that is no option is shown")
        S.cover('not shown')


@harness('C47', bounds="up to n commands of plugins, public or not, with a "
         "description, an argument and an item of their own, next to the "
         "shipped ones or not; help of all or one of them, asked for in "
         "either way",
         quick=[{'n': 2}], thorough=[{'n': 3}], history=False,
         covers=['all', 'one', 'hidden'])
def commands_are_listed(S, n):
    m = Machine(S, [])
    from xylem.config_utils import String
    k = S.count('n', 1, n)
    entries = []
    names = []
    for i in range(k):
        names.append(S.pick('name', ['cmd%d' % i, '_cmd%d' % i, '%dcmd' % i]))

        def prepare_config(d, i=i):
            d.add('item%d' % i, type=String, command_line=True,
                  help='Item of %d.' % i)

        def prepare_arguments(p, i=i):
            p.add_argument('--own%d' % i, help='Argument of %d.' % i)
            return p
        entries.append((names[i], dict(
            title=names[i], description='Does %d things.' % i, main=None,
            prepare_arguments=prepare_arguments,
            prepare_config=prepare_config)))
    shipped = S.bool('shipped')
    if shipped:
        entries.append(('update', 'xylem.commands.update:definition'))
    env.set_entry_points('xylem.commands', entries)
    which = S.pick('help of', [None] + list(range(k)))
    flag = S.pick('flag', ['-h', '--help'])
    os.environ['COLUMNS'] = '200'
    argv = [flag] if which is None else [names[which], flag]
    code, out, err = m.run(*argv)
    S.log('outcome', [code])
    S.check(code == 0, "the help cannot be shown")
    out = squeezed(out)
    common = ['--version', '--verbose', '--debug', '--prefix',
              '--xylem-dir', '--no-user-config', '--print-config', '--os ']
    for x in common:
        S.check(x in out, "a common option is not shown")
    if which is None:
        public = [x for x in names if not x.startswith('_')] + \
            (['update'] if shipped else [])
        S.check('[' + ' | '.join(public) + ']' in out, "not exactly the "
                "public commands are listed")
        for x in names:
            if x.startswith('_'):
                S.cover('hidden')
        S.cover('all')
        return
    for i in range(k):
        S.check(('--own%d' % i in out) == (i == which) and
                ('Argument of %d.' % i in out) == (i == which) and
                ('Does %d things.' % i in out) == (i == which),
                "not exactly the arguments of the command are shown")
    S.check('--item%d ' % which in out and 'Item of %d.' % which in out,
            "an option of the command is not shown")
    S.cover('one')


@harness('C47', bounds="none to many items of one type in front of one of any "
         "type, also inside of another one, in a group or not, on the "
         "command line", history=False,
         covers=['alone', 'many', 'none'])
def value_notations(S):
    from xylem.config_utils import ConfigDescription, ConfigHelpFormatter
    from xylem import config_utils as cu

    class Own(cu.ConfigType):
        pass

    class Told(cu.ConfigType):
        @staticmethod
        def command_line_parsing_help():
            return "own notation"

    types = {'String': lambda: cu.String, 'Boolean': lambda: cu.Boolean,
             'Path': lambda: cu.Path, 'Any': lambda: cu.Any,
             'List': lambda: cu.List(cu.Path),
             'Dict': lambda: cu.Dict(cu.Boolean),
             'MergingDict': lambda: cu.MergingDict(cu.String),
             'Own': lambda: Own, 'Told': lambda: Told()}
    d = ConfigDescription('config')
    first = S.pick('first', ['String', 'Own', 'Dict'])
    k = S.pick('items', [0, 1, 8, 25])
    for i in range(k):
        d.add('item%d' % i, type=types[first](), command_line=True)
    kind = S.pick('type', sorted(types))
    name = S.pick('name', ['last', 'group/last'])
    d.add(name, type=types[kind](), command_line=True)
    p = argparse.ArgumentParser(
        prog='x', add_help=False,
        formatter_class=lambda prog: ConfigHelpFormatter(prog, width=300))
    d.add_arguments(p)
    shown = squeezed(p.format_help())
    S.log('shown', shown)
    told = dict((t, getattr(cu, t, Told).command_line_parsing_help())
                for t in types if t != 'Own')
    used = set([kind] + ([first] if k else []))
    for t in sorted(told):
        if told[t] is None:
            continue
        entry = squeezed('* %s: %s' % (t, told[t]))
        if t in used:
            S.check(entry in shown, "the notation of values is not told")
        else:
            S.check('* %s: ' % t not in shown, "the notation of values that "
                    "no option takes is told")
    S.check('Own:' not in shown, "a notation is made up")
    if not k:
        S.cover('alone')
    elif k > 5:
        S.cover('many')
    if used == set(['Own']):
        S.cover('none')
