"""Printing, error reports, YAML output and helpers."""

import errno
import io
import os
import subprocess
import sys

import env
from symx.hapi import harness
from lib import attempt, distinct, clone, fake_installer, make_ic
from h_install import loaded


MARK = [ord(c) for c in '@!{}%\\a\n']


class Streams(object):
    """Standard output and error collected."""

    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *a):
        self.out, self.err = sys.stdout.getvalue(), sys.stderr.getvalue()
        sys.stdout, sys.stderr = self.old


def without_colors(text):
    """The text without terminal escape sequences."""
    out = ''
    i = 0
    while i < len(text):
        if text[i] == '\033':
            i += 1
            while text[i] != 'm':
                i += 1
        else:
            out += text[i]
        i += 1
    return out


@harness('C39', bounds="any text of up to n characters from a set with all "
         "that means something to formatting, as text or bytes; the five "
         "functions, verbose, debug and colors on or off, any file; one "
         "character of white space of any kind, or another one",
         quick=[{'n': 3}, {'n': 1, 'chars': '\t\r\x0b\x00\x85\u2028 \u20ac'}],
         thorough=[{'n': 5}, {'n': 2, 'chars': '\t\r\x0b\x00\x85\u2028 \u20ac'}],
         covers=['printed', 'quiet', 'exit', 'file', 'plain', 'bytes',
                 'stdout', 'stderr'])
def messages(S, n, chars=None):
    from xylem import log_utils
    from xylem.log_utils import enable_verbose, enable_debug
    from xylem.terminal_color import enable_ANSI_colors, disable_ANSI_colors
    kind = S.pick('function', ['info', 'warning', 'error', 'debug', 'info_v'])
    verbose, debug = S.bool('verbose'), S.bool('debug')
    colors = S.bool('colors')
    text = S.text('text', n, 0, [ord(c) for c in chars] if chars else MARK)
    form = S.pick('given as', ['text', 'bytes'])
    if form == 'bytes':
        text = S.pick('bytes', ['a@{x}', 'd\u00e9'])
        S.cover('bytes')
    enable_verbose(verbose)
    enable_debug(debug)
    (enable_ANSI_colors if colors else disable_ANSI_colors)()
    S.check(log_utils.is_verbose() == verbose and
            log_utils.is_debug() == debug, "setting not kept")
    f = io.StringIO() if S.bool('file') else None
    leave = kind == 'error' and f is None and S.bool('exit')
    given = text if form == 'text' else text.encode('utf-8')
    code = None
    with Streams() as streams:
        try:
            if leave:
                log_utils.error(given, exit=True)
            elif f is not None:
                getattr(log_utils, kind)(given, file=f)
            else:
                getattr(log_utils, kind)(given)
        except SystemExit as e:
            code = [e.code]
    got = {'out': streams.out, 'err': streams.err,
           'file': f.getvalue() if f is not None else ''}
    if leave:
        S.check(code is not None, "program not ended")
        got['err'] += code[0] + '\n'
        S.check(code[0] != 0, "ended successfully")
        S.cover('exit')
    else:
        S.check(code is None, "program ended")
    to = 'file' if f is not None else 'out' if kind == 'info' else 'err'
    if f is not None:
        S.cover('file')
    S.cover('stdout' if to == 'out' else 'stderr')
    quiet = kind == 'debug' and not debug or kind == 'info_v' and not verbose
    for k in got:
        if k != to or quiet:
            S.check(got[k] == '', "printed where it should not")
    if quiet:
        S.cover('quiet')
        return
    S.cover('printed')
    S.log('printed', got[to])
    S.check(without_colors(got[to]) == text + '\n', "text not printed as "
            "it is")
    if not colors:
        S.check(got[to] == text + '\n', "colors although disabled")
        S.cover('plain')
    else:
        S.check(got[to].endswith('\033[0m\n'), "colors are not reset")


@harness('C39', bounds="commands with up to n arguments that are any texts "
         "of up to two characters from that set; simulated or not, verbose "
         "or not",
         quick=[{'n': 1}], thorough=[{'n': 2}],
         covers=['simulated', 'executed'])
def printed_commands(S, n):
    from xylem.log_utils import enable_verbose
    from xylem.install import install
    cmd = ['run'] + [S.text('argument', 2, 1, MARK) for _ in range(n)]
    simulate = S.bool('simulate')
    enable_verbose(S.bool('verbose'))
    env.ST.process = lambda c: (0, '', '')
    ic = make_ic('o', 'v', 'a', ['a'], [fake_installer(
        'a', commands=lambda packages: [cmd],
        uninstalled=lambda p: env.ST.commands == [])])
    db = loaded(S, {'key': {'any_os': {'any_version': {
        'a': {'packages': ['p']}}}}})
    with Streams() as streams:
        how, got = attempt(install, ['key'], simulate=simulate, database=db,
                           installer_context=ic)
    S.check(how == 'ok' and got == ([], []), "installing fails: %r" % (got,))
    shown = without_colors(streams.out)
    S.log('shown', shown)
    line = 'run'
    for a in cmd[1:]:
        line += ' ' + a
    S.check(line in shown, "the command is not shown as it is")
    S.check(len(env.ST.commands) == (0 if simulate else 1),
            "wrong number of commands executed")
    S.cover('simulated' if simulate else 'executed')


@harness('C40', bounds="up to n errors each caused by the next, arbitrary "
         "messages of one or two lines, types, raised or not, while another error is being "
         "handled or not; with or without traceback; uncaught",
         quick=[{'n': 3}], thorough=[{'n': 4}],
         covers=['single', 'chain', 'traceback', 'only the last', 'multi',
                 'unrelated', 'uncaught'])
def error_reports(S, n):
    if S.bool('while handling'):
        # another error is being handled that is no cause
        S.cover('unrelated')
        try:
            raise KeyError('unrelated')
        except KeyError:
            chained_errors(S, n)
    else:
        chained_errors(S, n)


def chained_errors(S, n):
    from xylem.exception import (XylemError, raise_from, chain_exception,
                                 exc_to_str)
    k = S.count('errors', 1, n)
    types = []
    # some of them may be equal
    msgs = [S.name('message') for _ in range(k)]
    if k == 2 and S.bool('several lines'):
        msgs = [m + '\nof two lines' for m in msgs]
    exc = None
    for i in range(k):
        t = S.pick('type', [XylemError, ValueError, OSError])
        types.append(t)
        if i == 0:
            first = t(msgs[0])
            if S.bool('raised'):
                try:
                    raise first
                except Exception as e:
                    exc = e
            else:
                exc = first
            continue
        prev = exc
        if S.bool('returned'):
            exc = chain_exception(t, msgs[i], prev)
        else:
            try:
                raise_from(t, msgs[i], prev)
                S.fail("raise_from does not raise")
            except Exception as e:
                exc = e
        S.check(type(exc) is t, "error of the wrong type raised")
        S.check(exc.__cause__ is prev, "cause lost")
        S.check(msgs[i] in str(exc), "message lost")
    how = S.pick('report', ['text', 'text and traceback', 'last',
                            'last and traceback', 'uncaught'])
    tb, chain = 'traceback' in how, 'last' not in how
    if how == 'uncaught':
        from xylem.util import custom_exception_handler
        S.cover('uncaught')
        sys.modules['pygments'] = None      # no highlighting
        with Streams() as streams:
            custom_exception_handler(type(exc), exc, exc.__traceback__)
        S.check(streams.out == '', "error reported on standard output")
        tb = exc.__traceback__ is not None
        S.check(streams.err.endswith('\n'), "no line break")
        text = streams.err[:-1]
    else:
        text = exc_to_str(exc, tb=tb, chain=chain)
    S.check(isinstance(text, str), "not a text")
    S.check(tb or 'unrelated' not in text, "an unrelated error is reported")
    if tb:
        S.cover('traceback')
    else:
        S.check('Traceback' not in text, "traceback although not asked for")
    if not chain:
        S.cover('only the last')
        S.check(msgs[-1] in text, "message missing")
        for m in msgs[:-1]:
            S.check(m == msgs[-1] or m not in text,
                    "cause although not asked for")
        return
    S.cover('single' if k == 1 else 'chain')
    if k > 2:
        S.cover('multi')
    rest = text
    for i in range(k):
        S.check(msgs[i] in rest, "a cause is missing or out of order")
        head, rest = rest.split(msgs[i], 1)
        S.check(types[i].__name__ in head, "type of an error missing")
        S.check(('direct cause' in head) == (i > 0),
                "causes are not linked")
    S.check(not text.endswith('\n'), "empty line at the end")


@harness('C40', bounds="one to n errors each caused by the next, each raised "
         "three calls deep or not raised; tracebacks limited to one to three "
         "calls or not at all, given, looked up or not asked for",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['limited', 'unlimited', 'none', 'not raised'])
def limited_tracebacks(S, n):
    from xylem.exception import XylemError, raise_from, exc_to_str

    def third(msg, cause):
        if cause is None:
            raise XylemError(msg)
        raise_from(XylemError, msg, cause)

    def second(msg, cause):
        third(msg, cause)

    def first(msg, cause):
        second(msg, cause)
    exc = None
    msgs = []
    raised = []
    for i in range(S.count('errors', 1, n)):
        msgs.append('message%d' % i)
        raised.append(i > 0 or S.bool('raised'))
        if not raised[i]:
            exc = XylemError(msgs[i])
            S.cover('not raised')
            continue
        try:
            first(msgs[i], exc)
        except XylemError as e:
            exc = e
    how = S.pick('traceback', ['given', 'looked up', 'not at all'])
    tb = {'given': exc.__traceback__, 'looked up': True,
          'not at all': False}[how]
    limit = S.pick('limit', [None, 1, 2, 3])
    rest = exc_to_str(exc, tb=tb, limit=limit)
    S.log('text', len(msgs))
    if how == 'not at all' or not raised[-1]:
        S.check('File "' not in rest, "tracebacks although there is none or "
                "none asked for")
        S.cover('none')
        return
    for i in range(len(msgs)):
        S.check(msgs[i] in rest, "a cause is missing or out of order")
        head, rest = rest.split(msgs[i], 1)
        calls = head.count('File "')
        if not raised[i]:
            S.check(calls == 0, "traceback of an error that was not raised")
        elif limit is None:
            S.check(calls >= 4, "traceback is cut")
            S.check(', in third' in head, "place of the error is missing")
            S.cover('unlimited')
        else:
            S.check(calls == limit, "not the requested number of calls")
            S.cover('limited')


TRICKY = ['null', '~', 'true', 'no', '1', '1.5', '2014-01-01', 'a: b', ' #z',
          '', 'a\nb', "'", '"', '@x', '{a}', '[', '- a', '=', '<<', '!x',
          '&a', '*a', '%', 'a\tb', '\u00e9', 'a ', '12:30', '0x1', ',', '?',
          '|', '>', '...', '---', '017', '1_0', '08', '1e3', '.5', '0b1']


def gen_value(S, tag, depth):
    kind = S.pick(tag, ['text', 'name', 'other', 'list', 'dict']
                  if depth else ['text', 'name', 'other'])
    if kind == 'text':
        return S.pick(tag + '.text', TRICKY)
    if kind == 'name':
        return S.name(tag + '.name')
    if kind == 'other':
        return S.pick(tag + '.other', [None, True, False, 0, -1, 1.5])
    n = S.count(tag + '.n', 0 if depth == 1 else 1, 2)
    if n == 0:
        return [] if kind == 'list' else {}
    first = gen_value(S, tag + '.x', depth - 1)
    rest = []
    if n == 2:
        rest = [S.pick(tag + '.other', [None, {'k': None}])]
        if S.bool(tag + '.swap'):
            first, rest = rest[0], [first]
    if kind == 'list':
        return [first] + rest
    out = {S.pick(tag + '.key', ['k', 'null', 1, 'x: y'] if depth == 1
                  else ['k']): first}
    if rest:
        out['l'] = rest[0]
    return out


def equal(a, b):
    """Equal, and of the same types throughout."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return False
        for (k, v), (l, w) in zip(sorted(a.items(), key=by_key),
                                  sorted(b.items(), key=by_key)):
            if not equal(k, l) or not equal(v, w):
                return False
        return True
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return False
        for v, w in zip(a, b):
            if not equal(v, w):
                return False
        return True
    if isinstance(a, str):
        return isinstance(b, str) and a == b
    return type(a) is type(b) and a == b


def by_key(item):
    return str(type(item[0])), str(item[0])


@harness('C07', bounds="any structure of lists and dicts nested up to the "
         "given depth with up to two entries each, of arbitrary names, "
         "numbers, booleans, nulls and texts that look like something else; "
         "parts occurring once or twice, plain or config dicts",
         quick=[{'depth': 1, 'longer': True}, {'depth': 2}],
         thorough=[{'depth': 3}, {'depth': 2, 'longer': True}],
         covers=['null', 'shared', 'config dict', 'nested', 'list in list'])
def yaml_round_trip(S, depth, longer=False):
    from xylem.yaml_utils import dump_yaml, load_yaml
    from xylem.config_utils import ConfigDict
    v = S.pick('number', [0.1 + 0.2, 1.2e-07, 1e300, 10 ** 20]) if longer and \
        S.bool('unusual') else gen_value(S, 'value', depth)
    if v is None:
        S.reject()
    top = S.pick('within', ['itself', 'shared', 'config dict', 'list']
                 if not longer else ['itself', 'longer shared'])
    if top == 'shared':
        S.cover('shared')
        v = {'a': v, 'b': v}
    elif top == 'config dict':
        S.cover('config dict')
        v = {'x': ConfigDict({'y': v})}
    elif top == 'list':
        v = ['x', v]
    elif top == 'longer shared':
        more = [1, 'y', None, True][:S.count('more', 2, 4)]
        if isinstance(v, dict):
            v = dict(v)
            for i, x in enumerate(more):
                v['m%d' % i] = x
        else:
            v = [v] + more
        v = [v, {'again': v}, v]
        S.cover('shared')
    before = clone(v)
    text = dump_yaml(v)
    S.check(isinstance(text, str), "not a text")
    S.check('&id0' not in text and '*id0' not in text,
            "parts occurring twice are not written in full")
    S.check(equal(before, v), "value modified")
    if isinstance(v, list) and None in v:
        S.cover('null')
    if isinstance(v, dict) and [x for x in v.values()
                                if isinstance(x, (dict, list))]:
        S.cover('nested')
    if isinstance(v, list) and [x for x in v if isinstance(x, list)]:
        S.cover('list in list')
    S.log('yaml', text)
    how, back = attempt(load_yaml, text)
    S.check(how == 'ok', "YAML written cannot be read: %r" % (text,))
    S.check(equal(back, v), "YAML written reads back as something else: %r"
            % (text,))


SIGNS = "0178.-+:#e_xnN~'\"[{&*!|>%@`?, \n\t"


@harness('C07', bounds="any text of up to n characters of all that mean "
         "something in YAML, digits, blanks and line breaks included, as "
         "the whole, in a list, as key or value of a dict",
         quick=[{'n': 1}, {'n': 3, 'signs': '018_'},
                {'n': 2, 'signs': ':#- x'}, {'n': 2, 'signs': "\n '\""}],
         thorough=[{'n': 2}, {'n': 4, 'signs': '01.e_'}], history=False,
         covers=['whole', 'list', 'key', 'value'])
def yaml_texts(S, n, signs=SIGNS):
    S.instrument('yaml')
    from xylem.yaml_utils import dump_yaml, load_yaml
    x = S.text('text', n, 0, [ord(c) for c in signs])
    where = S.pick('where', ['whole', 'list', 'key', 'value'])
    S.cover(where)
    v = {'whole': x, 'list': [x, 'a'], 'key': {x: 'a'},
         'value': {'a': x, 'b': 1}}[where]
    text = dump_yaml(v)
    S.log('yaml', text)
    how, back = attempt(load_yaml, text)
    S.check(how == 'ok', "YAML written cannot be read: %r" % (text,))
    S.check(equal(back, v), "YAML written reads back as something else: %r"
            % (text,))


@harness('C43', bounds="sequences of up to n helpers nested in any order, "
         "an error or none inside, the directories removed or not meanwhile",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['error', 'removed', 'streams', 'temporary', 'directory'])
def restored(S, n):
    from xylem.util import (change_directory, temporary_directory,
                            redirected_stdio)
    base = env.scratch()
    os.makedirs(os.path.join(base, 'd0', 'd1', 'd2'))
    os.chdir(os.path.join(base, 'd0'))
    fails = S.bool('error')
    made = []
    streams = sys.stdout, sys.stderr

    def enter(i):
        if i == n:
            if fails:
                raise KeyError('x')
            return
        what = S.pick('helper', ['directory', 'temporary', 'streams'])
        S.cover(what)
        cwd = os.getcwd()
        out = sys.stdout, sys.stderr
        try:
            if what == 'directory':
                target = os.path.join(base, 'd0', 'd%d' % (i + 1))
                if not os.path.isdir(target):
                    os.makedirs(target)
                with change_directory(target) as d:
                    S.check(os.getcwd() == target, "directory not changed")
                    enter(i + 1)
            elif what == 'temporary':
                with temporary_directory('pre') as d:
                    made.append(os.path.realpath(d))
                    S.check(os.path.basename(d).startswith('pre'),
                            "prefix ignored")
                    S.check(os.listdir(d) == [] and
                            os.getcwd() == os.path.realpath(d),
                            "not in an empty directory")
                    with open(os.path.join(d, 'f'), 'w') as f:
                        f.write('x')
                    gone = i == n - 1 and S.bool('removed')
                    if gone:
                        S.cover('removed')
                        os.remove(os.path.join(d, 'f'))
                        os.rmdir(d)
                    enter(i + 1)
            else:
                with redirected_stdio() as (o, e):
                    print('text')
                    sys.stderr.write('err')
                    S.check(o.getvalue() == 'text\n' and
                            e.getvalue() == 'err', "output not captured")
                    enter(i + 1)
        finally:
            S.check(os.getcwd() == cwd, "directory not restored")
            S.check(sys.stdout is out[0] and sys.stderr is out[1],
                    "streams not restored")
            if what == 'temporary':
                S.check(not os.path.exists(made[-1]) if i == n - 1 else True,
                        "temporary directory left behind")
    how, got = attempt(enter, 0)
    S.check((how == 'exc') == fails, "error hidden or made up: %r" % (got,))
    if fails:
        S.check(isinstance(got, KeyError), "error replaced")
        S.cover('error')
    for d in made:
        S.check(not os.path.exists(d), "temporary directory left behind")
    S.check((sys.stdout, sys.stderr) == streams, "streams not restored")


@harness('C43', bounds="one object of each helper used up to n times, each "
         "time from either of two directories, with another output, and with "
         "an error inside or none", quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['error', 'moved'])
def restored_each_time(S, n):
    from xylem.util import change_directory, redirected_stdio
    base = env.scratch()
    for d in 'abc':
        os.makedirs(os.path.join(base, d))
    what = S.pick('helper', ['directory', 'streams'])
    helper = change_directory(os.path.join(base, 'c')) \
        if what == 'directory' else redirected_stdio()
    streams = sys.stdout, sys.stderr
    seen = []
    try:
        for i in range(n):
            d = os.path.join(base, S.pick('from', ['a', 'b']))
            seen.append(d)
            os.chdir(d)
            out = sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            fails = S.bool('error')

            def use():
                with helper:
                    if what == 'directory':
                        S.check(os.getcwd() == os.path.join(base, 'c'),
                                "directory not changed")
                    else:
                        S.check(sys.stdout is not out[0],
                                "output not captured")
                        print('text')
                    if fails:
                        raise KeyError('x')
            how, e = attempt(use)
            now = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = streams
            S.check((how == 'exc') == fails, "error hidden or made up")
            S.check(os.getcwd() == d, "directory not restored")
            S.check(now[0] is out[0] and now[1] is out[1],
                    "streams not restored")
            S.check(out[0].getvalue() == '', "output not captured")
            if fails:
                S.cover('error')
            if i and seen[i] != seen[i - 1]:
                S.cover('moved')
    finally:
        sys.stdout, sys.stderr = streams


@harness('C43', bounds="lists of up to n arbitrary possibly equal names or "
         "of up to n numbers from -2 to 1; texts of up to n + 1 lines of up to one character, any width",
         quick=[{'n': 3}], thorough=[{'n': 4}],
         covers=['duplicate', 'lines'])
def lists_and_lines(S, n):
    from xylem.util import remove_duplicates, indent
    if S.bool('numbers'):
        # different numbers may have equal hashes
        items = [S.pick('number', [-2, -1, 0, 1])
                 for _ in range(S.count('numbers', 0, n))]
    else:
        items = [S.name('item') for _ in range(S.count('items', 0, n))]
    given = list(items)
    got = remove_duplicates(items)
    want = []
    for x in items:
        if x in want:
            S.cover('duplicate')
        else:
            want.append(x)
    S.check(got == want, "not the first occurrence of each item in order")
    S.check(items == given, "input modified")
    if items:
        return
    width = S.count('width', 0, 2)
    text = S.text('text', n + 1, 0, [ord('a'), ord('\n'), ord(' ')])
    first = S.bool('exclude first')
    res = indent(text, width, exclude_first=first)
    lines = []
    line = ''
    for c in text:
        if c == '\n':
            lines.append(line)
            line = ''
        else:
            line += c
    lines.append(line)
    if len(lines) > 1:
        S.cover('lines')
    S.log('lines', res)
    out = ''
    for i, x in enumerate(lines):
        if i:
            out += '\n'
        if i or not first:
            out += ' ' * width
        out += x
    S.check(res == out, "lines not indented by the width")


@harness('C43', bounds="commands with any output and exit code, or not "
         "found; output or errors of 70 kB or 2 MB, or any name",
         quick=[{}], covers=['found', 'missing', 'large'])
def program_output(S):
    from xylem.util import (read_stdout, read_stdout_err,
                            is_program_installed)
    out, err = S.name('output'), S.name('errors')
    # more than fits in a pipe
    large = S.pick('large', [None, 'output', 'errors', 'both'])
    if large:
        text = S.pick('size', [70, 2000]) * ('x' * 999 + '\n')
        out = text if large != 'errors' else out
        err = text if large != 'output' else err
        S.cover('large')
    code = S.int('exit code', -1, 2)
    found = S.bool('found')

    number = S.pick('error', [errno.ENOENT, errno.EACCES, errno.ENOTDIR,
                              errno.ENOEXEC, errno.ENOMEM, errno.EMFILE]) \
        if not found else 0

    def process(cmd):
        if not found:
            raise OSError(number, 'not found')
        return code, out, err
    env.ST.process = process
    cmd = ['prog', S.name('argument')]
    S.check(is_program_installed('prog') == found, "wrong answer")
    S.cover('found' if found else 'missing')
    how, got = attempt(read_stdout, cmd)
    how2, got2 = attempt(read_stdout_err, cmd)
    if not found:
        S.check(how == how2 == 'exc' and isinstance(got, OSError) and
                isinstance(got2, OSError), "missing program not reported")
        return
    S.check(how == how2 == 'ok', "reading fails")
    S.check(got == out, "wrong output")
    S.check(got2 == (out, err, code), "wrong output, errors or exit code")
    S.check([c for _, c in env.ST.commands] == [['prog'], cmd, cmd],
            "wrong commands")


@harness('C07', bounds="YAML documents with any of the tags that construct "
         "objects or call functions, unknown tags, or a syntax error, at any "
         "of three places; with or without a text next to it",
         quick=[{}], covers=['refused', 'read'])
def unsafe_yaml(S):
    import yaml
    from xylem.yaml_utils import load_yaml
    what = S.pick('what', ['!!python/object/apply:os.system [touch x]',
                           '!!python/object/new:os.system [touch x]',
                           '!!python/name:os.system', '!!python/module:os',
                           '!!python/tuple [a, b]', '!unknown a',
                           '!!python/object:xylem.config_utils.ConfigDict {}',
                           '[', '"', 'ok', '! ok', '!!str ok'])
    name = S.name('name')
    where = S.pick('where', ['top', 'list', 'dict'])
    text = what
    if where == 'list':
        text = '- ' + name + '\n- ' + what
    elif where == 'dict':
        text = 'k: ' + what + '\nl: ' + name
    how, got = attempt(load_yaml, text)
    S.check(env.ST.commands == [], "reading YAML executes commands")
    if what.endswith('ok'):
        S.cover('read')
        want = {'top': 'ok', 'list': [name, 'ok'],
                'dict': {'k': 'ok', 'l': name}}[where]
        S.check(how == 'ok' and equal(got, want), "not read as it is")
        return
    S.cover('refused')
    S.check(how == 'exc' and isinstance(got, yaml.YAMLError),
            "invalid or unsafe YAML not refused")


class Thing(object):
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


@harness('C39', bounds="texts, bytes, exceptions, types, lists of texts, "
         "numbers and other objects, with arbitrary text in them",
         covers=['text', 'bytes', 'error', 'type', 'list', 'object'])
def text_of_things(S):
    from xylem.text_utils import to_str, to_bytes, type_name
    from xylem.log_utils import info
    kind = S.pick('kind', ['text', 'bytes', 'error', 'no message', 'type',
                           'list', 'number', 'object', 'mixed'])
    name = S.name('text')
    x, want = {
        'text': lambda: (name, name),
        'bytes': lambda: (name.encode('utf-8'), name),
        'error': lambda: (ValueError(name), 'ValueError: ' + name),
        'no message': lambda: (ValueError(), 'ValueError'),
        'type': lambda: (Thing, 'Thing'),
        'list': lambda: ([name, 'b'], '[' + name + ', b]'),
        'number': lambda: (12, '12'),
        'object': lambda: (Thing(name), name),
        'mixed': lambda: (['a', 1], "['a', 1]")}[kind]()
    S.cover({'no message': 'error', 'number': 'object',
             'mixed': 'list'}.get(kind, kind))
    got = to_str(x)
    S.log('text', got)
    S.check(isinstance(got, str) and got == want, "wrong text")
    if kind in ('text', 'bytes', 'number', 'object'):
        b = to_bytes(x)
        S.check(isinstance(b, bytes) and b == want.encode('utf-8'),
                "wrong bytes")
    S.check(to_str(b'\xff') == '\ufffd' and
            to_str(b'\xe9', encoding='latin-1') == '\u00e9' and
            to_bytes('\u00e9', encoding='latin-1') == b'\xe9',
            "undecodable text or other encodings not handled")
    S.check(type_name(Thing(name)) == 'Thing', "wrong name of a type")
    with Streams() as streams:
        info(x)
    S.check(without_colors(streams.out) == want + '\n', "not printed")
