"""Sources: selection of source files, descriptions, cache, update."""

import http.client
import io
import os
import pickle
import socket
import sys
import urllib.error

import env
from symx.hapi import harness
from lib import attempt, distinct, not_one_of, clone, spec_lookup, make_ic
from lib import Processes
from h_merge import Response


class World(object):
    """Sources directory, cache directory and network of one run."""

    def __init__(self, S):
        self.S = S
        self.base = env.scratch()
        self.sources_dir = os.path.join(self.base, 'sources.d')
        self.cache_dir = os.path.join(self.base, 'cache')
        os.makedirs(self.sources_dir)
        self.fetched = []
        self.pages = {}
        env.ST.url = self.open_url
        env.set_entry_points('xylem.specs', [
            ('rules', 'xylem.specs.plugins.rules:definition')])

    def open_url(self, url, *a, **k):
        self.fetched.append(url)
        page = self.pages.get(url)
        if page is None:
            page = 'k: {ubuntu: [p]}'
        if isinstance(page, Exception):
            raise page
        return Response(page)

    def write(self, name, text):
        with open(os.path.join(self.sources_dir, name), 'w') as f:
            f.write(text)

    def context(self):
        from xylem.config import get_default_config
        from xylem.sources import SourcesContext
        config = get_default_config()
        config.sources_dir = self.sources_dir
        config.cache_dir = self.cache_dir
        self.config = config
        return SourcesContext(config)

    def database(self):
        from xylem.sources import RulesDatabase
        return RulesDatabase(self.context())

    def cache_files(self):
        """All files below the cache directory with their content."""
        out = {}
        for d, _, files in os.walk(self.cache_dir):
            for f in files:
                with open(os.path.join(d, f), 'rb') as g:
                    out[os.path.join(d, f)] = g.read()
        return out


NAMES = ['b.yaml', 'a.yaml', 'B.yaml', '10-x.yaml', '9-x.yaml', '.h.yaml',
         'c.yml', 'd.yaml~', 'yaml', 'e.YAML', 'sub.yaml', 'gone.yaml',
         'link.yaml']


@harness('C11', bounds="up to n files created in any order, any of 13 names "
         "(hidden, other extensions, upper case, a directory, links to a "
         "file and to nothing), one or two "
         "sources per file", quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['ignored', 'ordered', 'directory', 'hidden', 'two', 'link'])
def source_files_in_alphabetical_order(S, n):
    w = World(S)
    chosen = []
    pool = list(NAMES)
    for i in range(n):
        x = S.pick('file%d' % i, pool)
        pool.remove(x)
        chosen.append(x)
    content = {}
    for i, x in enumerate(chosen):
        urls = ['u%d' % i]
        if i == 0 and S.bool('two'):
            urls.append('t')
            S.cover('two')
        if x == 'sub.yaml':
            os.makedirs(os.path.join(w.sources_dir, x))
            S.cover('directory')
        elif x == 'gone.yaml':
            os.symlink(os.path.join(w.base, 'nothing.yaml'),
                       os.path.join(w.sources_dir, x))
        elif x == 'link.yaml':
            with open(os.path.join(w.base, 'elsewhere'), 'w') as f:
                f.write(''.join('- rules: %s\n' % u for u in urls))
            os.symlink(os.path.join(w.base, 'elsewhere'),
                       os.path.join(w.sources_dir, x))
            S.cover('link')
        else:
            w.write(x, ''.join('- rules: %s\n' % u for u in urls))
        content[x] = urls
    want = []
    for x in sorted(chosen):
        if x.endswith('.yaml') and not x.startswith('.') and \
                x not in ('sub.yaml', 'gone.yaml'):
            want += content[x]
        else:
            S.cover('ignored')
        if x.startswith('.'):
            S.cover('hidden')
    db = w.database()
    db.load_from_source()
    S.log('order', w.fetched)
    if chosen != sorted(chosen):
        S.cover('ordered')
    S.check(w.fetched == want, "sources are not those of the visible .yaml "
            "files in alphabetical order of the files")


@harness('C11', bounds="two files whose names are arbitrary texts of up to n "
         "characters over a, b, '.', '-' followed by .yaml",
         quick=[{'n': 2}], thorough=[{'n': 3}], covers=['swapped', 'hidden'])
def source_file_names(S, n):
    alphabet = [ord(c) for c in 'ab.-']
    a = S.text('a', n, 1, alphabet) + '.yaml'
    b = S.text('b', n, 1, alphabet) + '.yaml'
    S.assume(a != b)
    from xylem.sources.impl import load_sources_from_path
    w = World(S)
    text = {os.path.join(w.sources_dir, x): '- rules: %s\n' % u
            for x, u in ((a, 'u1'), (b, 'u2'))}
    for p, t in text.items():
        with open(p, 'w') as f:
            f.write(t)
    got = [d[0]['rules'] for _, d in load_sources_from_path(w.sources_dir)]
    S.log('got', got)
    want = []
    if a[0] != '.':
        want.append((a, 'u1'))
    if b[0] != '.':
        want.append((b, 'u2'))
    if len(want) == 2 and b < a:
        want = [want[1], want[0]]
        S.cover('swapped')
    if len(want) < 2:
        S.cover('hidden')
    S.check(got == [u for _, u in want], "source files not loaded in "
            "alphabetical order without the hidden ones")


@harness('C11', bounds="a sources directory that does not exist, is empty, "
         "or has only ignored files", covers=['default', 'none'])
def default_sources_only_without_directory(S):
    w = World(S)
    k = S.pick('dir', ['missing', 'empty', 'ignored'])
    if k == 'missing':
        w.sources_dir = os.path.join(w.base, 'nothing')
    if k == 'ignored':
        w.write('x.txt', '- rules: u\n')
    db = w.database()
    db.load_from_source()
    S.log('n', len(w.fetched))
    if k == 'missing':
        S.check(len(w.fetched) > 0, "default sources are not used when there "
                "is no sources directory")
        S.cover('default')
    else:
        S.check(w.fetched == [], "default sources are used although there is "
                "a sources directory")
        S.cover('none')


# -- descriptions ------------------------------------------------------------------

@harness('C12', bounds="one or two source files with n descriptions, one of "
         "them at either end, in the middle or none malformed in any of "
         "six ways or the same as the first or last one",
         quick=[{'n': 3}, {'n': 40}], thorough=[{'n': 300}],
         covers=['fine', 'rejected'])
def many_descriptions(S, n):
    w = World(S)
    items = ['rules: m%d' % i for i in range(n)]
    want = ['m%d' % i for i in range(n)]
    bad = S.pick('bad', ['none', 'unknown: x', '5', '{}', 'first', 'last',
                       '{rules: x, other: y}', 'rules: [x]', 'rules:'])
    pos = S.pick('position', [0, n // 2, n])
    x = S.name('x')
    not_one_of(S, x, want)
    items.insert(pos, {'none': 'rules: ' + x, 'first': items[0],
                       'last': items[-1]}.get(bad, bad))
    want.insert(pos, x)
    cut = S.pick('first file', [0, 1, n // 2, n + 1])
    for name, part in (('a', items[:cut]), ('b', items[cut:])):
        if part:
            w.write(name + '.yaml', ''.join('- %s\n' % i for i in part))
    how, r = attempt(w.database)
    S.log('outcome', [how])
    S.check((how == 'ok') == (bad == 'none'), "malformed source descriptions "
            "are accepted or valid ones rejected")
    if bad != 'none':
        S.cover('rejected')
        return
    r.load_from_source()
    S.check(w.fetched == want, "sources are not those described")
    S.cover('fine')


@harness('C12', bounds="one or two source files with up to two descriptions, "
         "at most one of them malformed in any of 14 ways or the same as "
         "another one of either file",
         covers=['invalid', 'unknown', 'yaml', 'duplicate', 'fine'])
def malformed_descriptions_are_rejected(S):
    from xylem.sources.impl import UnknownSpecError
    w = World(S)
    u1, u2, u3 = [S.name(x) for x in ('u1', 'u2', 'u3')]
    bad = S.pick('bad', [
        'none', 'mapping', 'string', 'number', 'item string', 'item list',
        'item null', 'item empty', 'item two', 'spec number', 'spec null',
        'unknown spec', 'list argument', 'null argument', 'yaml', 'same',
        'same elsewhere'])
    distinct(S, [u1, u2] if bad == 'same' else [u1, u2, u3])
    for u in (u1, u2, u3):
        not_one_of(S, u, ['other'])
    other = S.name('spec', extra=['r', 'rule', 'rules2', 'Rules', 'xrules',
                                  'ules'])
    not_one_of(S, other, ['rules'])
    item = {
        'item string': 'rules', 'item list': '[rules, u]', 'item null': '',
        'item empty': '{}', 'item two': '{rules: u, other: u}',
        'spec number': '{5: u}', 'spec null': '{null: u}',
        'unknown spec': other + ': u', 'list argument': 'rules: [u]',
        'null argument': 'rules:', 'same': 'rules: ' + u1,
    }.get(bad, 'rules: ' + u3)
    good = ['rules: ' + u1, 'rules: ' + u2]
    pos = S.pick('position', [0, 1, 2])
    items = good[:pos] + [item] + good[pos:]
    text = ''.join('- %s\n' % i for i in items)
    if bad == 'mapping':
        text = 'rules: ' + u1
    if bad == 'string':
        text = 'rules'
    if bad == 'number':
        text = '5'
    if bad == 'yaml':
        text = S.pick('broken', ['- rules: [u', '- a: b: c', '\t- x'])
    w.write('b.yaml', text)
    extra = S.pick('extra file', ['', 'a.yaml', 'c.yaml'])
    if bad == 'same elsewhere':
        S.assume(extra != '')
    if extra:
        w.write(extra, '- rules: %s\n' % (
            'other' if bad != 'same elsewhere' else u1))
    how, r = attempt(w.database)
    S.log('outcome', [how])
    if bad in ('none', 'yaml'):
        S.check(how == 'ok', "valid source descriptions are rejected")
        r.load_from_source()
        mine = [] if bad == 'yaml' else [i[len('rules: '):] for i in items]
        want = (['other'] if extra == 'a.yaml' else []) + mine + \
            (['other'] if extra == 'c.yaml' else [])
        S.check(w.fetched == want, "sources are not those described")
        S.cover('yaml' if bad == 'yaml' else 'fine')
        return
    S.check(how == 'exc', "malformed source descriptions are accepted")
    if bad == 'unknown spec':
        S.check(isinstance(r, UnknownSpecError), "unknown spec not reported "
                "as such")
        S.cover('unknown')
    elif bad.startswith('same'):
        S.check(isinstance(r, (RuntimeError, ValueError)),
                "duplicate source not reported as such")
        S.cover('duplicate')
    else:
        S.check(isinstance(r, ValueError), "malformed source description "
                "raises an unrelated error")
        S.cover('invalid')


# -- cache -----------------------------------------------------------------------

def page(S, tag):
    return 'key: {ubuntu: {any_version: {apt: {packages: [%s]}}}}\n' % \
        S.name(tag)


# arguments of two sources that differ, some of them only a little
ALIKE = [('u0', 'u1'), ('http://h/R.yaml', 'http://h/r.yaml'),
         ('http://h/r', 'http://h/r/'), ('http://h/r?a', 'http://h/r?b'),
         ('http://h/a/b', 'http://h/a_b'), ('http://h/r#a', 'http://h/r#b'),
         ('http://h/' + 'x' * 300 + '1', 'http://h/' + 'x' * 300 + '2'),
         ('http://h/r', 'https://h/r'), ('http://h/\u00e9', 'http://h/e')]


@harness('C13', bounds="up to two sources with any of 9 pairs of alike "
         "arguments and arbitrary package and origin "
         "names; every cached source loaded by another process without "
         "network and possibly anew from its origin",
         covers=['cached', 'two', 'loaded anew'])
def cache_round_trip(S):
    w = World(S)
    n = S.count('n', 1, 2)
    urls = S.pick('arguments', ALIKE if n == 2 else ALIKE[:1])
    for i in range(n):
        w.write('%d.yaml' % i, '- rules: "%s"\n' % urls[i])
        w.pages[urls[i]] = page(S, 'pkg%d' % i)
    ic = make_ic('ubuntu', 'v', 'apt')
    ctx = w.context()
    ctx.ensure_cache_dir()
    db = w.database()
    for s in db.sources:
        S.check(not s.is_cache_available(), "cache exists before it is saved")
        S.check(s.is_cache_outdated(), "missing cache is not outdated")
    db.update()
    want = db.lookup('key', ic)
    env.ST.url = None
    db2 = w.database()
    db2.load_from_cache()
    got = db2.lookup('key', ic)
    S.log('got', got)
    S.check(len(want) == 1 and got == want,
            "cached rules differ from the loaded ones")
    S.check(db2.keys(ic) == db.keys(ic), "cached keys differ")
    for a, b in zip(db.sources, db2.sources):
        S.check(a.arguments == b.arguments and a.origin == b.origin and
                a.data == b.data and
                a.time_data_loaded == b.time_data_loaded,
                "cached source differs from the loaded one")
        S.check(b.is_cache_available(), "saved cache is not available")
        old = S.bool('outdated')
        seen = []
        b.spec.is_data_outdated = lambda *x: seen.append(x) or old
        S.check(b.is_cache_outdated() == old and seen == [
            (a.data, a.arguments, a.time_data_loaded)],
            "the spec does not decide about outdated data")
        # newer data that is loaded but not saved does not count
        if S.bool('loaded anew'):
            cached = a.data, a.arguments, a.time_data_loaded
            w.pages[a.arguments] = page(S, 'new')
            env.ST.url = w.open_url
            b.load_from_source()
            env.ST.url = None
            del seen[:]
            S.check(b.is_cache_outdated() == old and seen == [cached],
                    "the spec does not decide about the cached data")
            S.cover('loaded anew')
        del b.spec.is_data_outdated
    S.cover('cached')
    if n == 2:
        S.cover('two')
        db2.sources[0].clear_cache()
        S.check(not db2.sources[0].is_cache_available(),
                "cleared cache still available")
        S.check(db2.sources[1].is_cache_available(),
                "clearing one cache removes another")
        db2.sources[0].clear_cache()


@harness('C13', bounds="one cache file of two, damaged in any of 12 ways",
         covers=['strict', 'lenient', 'intact'])
def damaged_caches_are_rejected(S):
    import pickle
    w = World(S)
    w.write('0.yaml', '- rules: u0\n- rules: u1\n')
    w.pages['u0'] = page(S, 'p0')
    w.pages['u1'] = 'other: {ubuntu: {any_version: {apt: [%s]}}}\n' % \
        S.name('p1')
    ctx = w.context()
    ctx.ensure_cache_dir()
    db = w.database()
    db.update()
    victim = S.pick('victim', [0, 1])
    path = db.sources[victim].cache_file_path()
    with open(path, 'rb') as f:
        raw = f.read()
    data = pickle.loads(raw)
    how = S.pick('damage', [
        'none', 'missing', 'empty', 'truncated', 'garbage', 'list',
        'spec name', 'data', 'data type', 'xylem_version', 'spec_name',
        'spec_version', 'arguments', 'origin', 'time_data_loaded'])
    if how == 'missing':
        os.remove(path)
    elif how != 'none':
        if how == 'empty':
            raw = b''
        elif how == 'truncated':
            raw = raw[:S.pick('length', [1, len(raw) // 2, len(raw) - 1])]
        elif how == 'garbage':
            raw = b'rules: x'
        else:
            if how == 'list':
                data = [1]
            elif how == 'spec name':
                data['spec_name'] = S.name('other spec', extra=[
                    '', 'r', 'rule', 'rules2', 'Rules', 'rules ', 'xrules'])
                S.assume(data['spec_name'] != 'rules')
            elif how == 'data type':
                data['data'] = S.pick('type', [None, ['key'], {'key': 5}, {
                    'any_os': {}}])
            else:
                del data[how]
            raw = pickle.dumps(data, protocol=2)
        with open(path, 'wb') as f:
            f.write(raw)
    db2 = w.database()
    strict = S.bool('strict')
    db2.raise_on_error = strict
    source = db2.sources[victim]
    source.spec.is_data_outdated = lambda *x: False
    res, e = attempt(source.is_cache_outdated)
    if how in ('missing', 'spec name'):
        S.check(res == 'ok' and e is True, "a missing cache or one of "
                "another spec is not outdated")
    elif how == 'none':
        S.check(res == 'ok' and e is False, "up to date cache is outdated")
    del source.spec.is_data_outdated
    res, e = attempt(db2.load_from_cache)
    S.log('outcome', [res])
    if how == 'none':
        S.check(res == 'ok', "intact cache rejected")
        S.cover('intact')
        return
    if strict:
        S.check(res == 'exc', "damaged cache accepted")
        S.cover('strict')
    else:
        S.check(res == 'ok', "one damaged cache fails loading altogether")
        S.cover('lenient')
        S.check(db2.sources[1 - victim].data ==
                db.sources[1 - victim].data,
                "damaged cache affects another source")
    S.check(db2.sources[victim].data is None,
            "rules taken from a damaged cache")


# -- update ----------------------------------------------------------------------

FAULTS = ['http', 'timeout', 'refused', 'yaml', 'rules', 'names',
          'not rules']


def fault_page(S, tag, kinds):
    k = S.pick(tag, kinds)
    if k == 'http':
        return urllib.error.HTTPError('u', 404, 'not found', {}, None)
    if k == 'timeout':
        return socket.timeout('timed out')
    if k == 'refused':
        return urllib.error.URLError(OSError('refused'))
    if k == 'yaml':
        return 'a: [b'
    if k == 'rules':
        return 'key: {ubuntu: {v: {apt: 5}}}'
    if k == 'names':
        return 'key: {ubuntu: {v: {a b: {packages: [p]}}}}'
    return '- a\n- b\n'


@harness('C14', bounds="n sources in one or two files, any of them failing to "
         "load in any of 7 ways (with few: 2) or to be saved, with and "
         "without existing caches, one of them damaged or none",
         quick=[{'n': 2}, {'n': 4, 'few': 1}],
         thorough=[{'n': 3}, {'n': 5, 'few': 1}],
         covers=['failed load', 'failed save', 'all fine', 'stale kept',
                 'recovered', 'damaged'])
def update_isolates_failing_sources(S, n, few=0):
    from xylem.update import update
    w = World(S)
    split = not few and S.bool('two files')
    for i in range(n):
        f = '%d.yaml' % i if split else 'all.yaml'
        p = os.path.join(w.sources_dir, f)
        old = ''
        if os.path.exists(p):
            with open(p) as g:
                old = g.read()
        w.write(f, old + '- rules: u%d\n' % i)
    ctx = w.context()
    paths = [s.cache_file_path() for s in w.database().sources]
    had_cache = few or S.bool('existing caches')
    damaged = had_cache and not few and S.bool('damaged')
    if had_cache:
        for i in range(n):
            w.pages['u%d' % i] = page(S, 'old%d' % i)
        update(config=w.config)
        S.check(all(os.path.isfile(p) for p in paths),
                "update saved no caches")
    if damaged:
        # whatever is in an old cache must not matter
        with open(paths[0], 'wb') as f:
            f.write(b'garbage')
        S.cover('damaged')
    before = w.cache_files()
    bad = {}
    for i in range(n):
        state = S.pick('state%d' % i, ['fine', 'load', 'save'][:3 - few])
        if state != 'fine':
            bad[i] = state
        w.pages['u%d' % i] = page(S, 'new%d' % i)
        if state == 'load':
            w.pages['u%d' % i] = fault_page(
                S, 'fault%d' % i, ['refused', 'yaml'] if few else FAULTS)
            S.cover('failed load')
        if state == 'save':
            S.cover('failed save')
    save_bad = [paths[i] for i in bad if bad[i] == 'save']
    if save_bad:
        error = S.pick('save error', [
            OSError(28, 'no space left on device'),
            pickle.PicklingError('cannot pickle'), ValueError('closed file')])

    def hook(op, path):
        for p in save_bad:
            if str(path).startswith(p):
                raise error
    env.ST.fs_hook = hook
    how, e = attempt(update, config=w.config)
    env.ST.fs_hook = None
    S.log('outcome', [how, [u for u in w.fetched]])
    S.check(how == 'ok', "one failing source aborts the update")
    db = w.database()
    after = w.cache_files()
    for i in range(n):
        s = db.sources[i]
        if i in bad:
            S.check(after.get(paths[i]) == before.get(paths[i]),
                    "a source that fails to update loses or changes its "
                    "cache")
            if had_cache:
                S.cover('stale kept')
        else:
            S.check(s.is_cache_available(), "an updated source is not cached")
            s.load_from_cache()
            d = s.data['key']['ubuntu']['any_version']['apt']['packages']
            S.check(w.pages['u%d' % i] == 'key: {ubuntu: {any_version: {apt: '
                    '{packages: [%s]}}}}\n' % d[0],
                    "the cache of an updated source is not its new content")
            if bad:
                S.cover('recovered')
    if not bad:
        S.cover('all fine')


@harness('C14', bounds="a database of two sources set up to raise errors, "
         "either of them failing to load or to be saved in any of three ways "
         "or none, with or without existing caches; updating, loading or "
         "saving", covers=['raised', 'fine'])
def errors_are_raised_if_wanted(S):
    w = World(S)
    w.write('a.yaml', '- rules: u0\n- rules: u1\n')
    w.context().ensure_cache_dir()
    for i in range(2):
        w.pages['u%d' % i] = page(S, 'p%d' % i)
    db = w.database()
    if S.bool('existing caches'):
        db.update()
    op = S.pick('operation', ['update', 'load', 'save'])
    if op == 'save':
        db.load_from_source()
    victim = S.pick('victim', [0, 1])
    what = S.pick('what', ['none'] + ['load'] * (op != 'save') +
                  ['save'] * (op != 'load'))
    if what == 'load':
        w.pages['u%d' % victim] = fault_page(S, 'fault', FAULTS[:4])
    if what == 'save':
        bad = db.sources[victim].cache_file_path()
        error = S.pick('save error', [
            OSError(28, 'no space left on device'),
            pickle.PicklingError('cannot pickle'), ValueError('closed file')])

        def hook(o, path):
            if str(path).startswith(bad):
                raise error
        env.ST.fs_hook = hook
    S.check(db.raise_on_error, "errors are not raised by default")
    how, e = attempt({'update': db.update, 'load': db.load_from_source,
                      'save': db.save_to_cache}[op])
    env.ST.fs_hook = None
    S.check((how == 'exc') == (what != 'none'), "a failing source is not "
            "raised, or an error without one")
    S.cover('fine' if what == 'none' else 'raised')


@harness('C14', bounds="one database used for n operations in any order: "
         "update, loading from the sources or the caches, saving, each after "
         "the sources changed or not; lookups in between",
         quick=[{'n': 3}], thorough=[{'n': 4}],
         covers=['updated', 'from cache', 'changed', 'key gone'])
def database_follows_its_sources(S, n):
    w = World(S)
    w.write('a.yaml', '- rules: u0\n- rules: u1\n')
    w.context().ensure_cache_dir()
    db = w.database()
    ic = make_ic('ubuntu', 'v', 'apt')
    mem, disk, now = None, None, None
    for i in range(n):
        if now is None or S.bool('sources change'):
            if now is not None:
                S.cover('changed')
            now = []
            for j, (key, inst) in enumerate(S.pick('rules', [
                    [('key', 'apt'), ('key', 'apt')],
                    [('other', 'apt'), ('key', 'pip')]])):
                pkg = S.name('pkg')
                w.pages['u%d' % j] = ('%s: {ubuntu: {any_version: {%s: '
                                      '{packages: [%s]}}}}\n'
                                      % (key, inst, pkg))
                now.append((key, inst, pkg))
        ops = ['update', 'load']
        if disk is not None:
            ops.append('from cache')
        if mem is not None:
            ops.append('save')
        op = S.pick('op', ops)
        how, e = attempt({'update': db.update, 'load': db.load_from_source,
                          'from cache': db.load_from_cache,
                          'save': db.save_to_cache}[op])
        S.check(how == 'ok', "using the database fails")
        old = mem
        if op in ('update', 'load'):
            mem = now
        if op in ('update', 'save'):
            disk = mem
            S.cover('updated')
        if op == 'from cache':
            mem = disk
            S.cover('from cache')
        for k in ('key', 'other'):
            want = {}
            for key, inst, pkg in reversed(mem):
                if key == k:
                    want[inst] = {'packages': [pkg]}
            got = db.lookup(k, ic)
            S.log('got', got)
            S.check(got == want, "rules are not those loaded last")
        if old is not None and len({x[0] for x in old}) > \
                len({x[0] for x in mem}):
            S.cover('key gone')
        S.check(sorted(db.keys(ic)) == sorted({x[0] for x in mem}),
                "keys are not those loaded last")
    fresh = w.database()
    if disk is not None:
        fresh.load_from_cache()
        for key, inst, pkg in disk[:1]:
            S.check(fresh.lookup(key, ic).get(inst) == {'packages': [pkg]},
                    "cache is not what was saved last")


@harness('C14', bounds="one database updated or loaded n times, each of two "
         "sources failing to load in any of three ways or to be saved, or "
         "not, at each of them; lookups in between",
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['kept', 'never loaded', 'recovered'])
def failures_keep_what_was_loaded(S, n):
    w = World(S)
    w.write('a.yaml', '- rules: u0\n- rules: u1\n')
    w.context().ensure_cache_dir()
    db = w.database()
    db.raise_on_error = False
    ic = make_ic('ubuntu', 'v', 'apt')
    mem, disk = [None, None], [None, None]
    for i in range(n):
        save_bad = []
        op = S.pick('op', ['update', 'load'])
        for j in range(2):
            state = S.pick('state', ['fine', 'load', 'save'] if op == 'update'
                           and j == 0 else ['fine', 'load'])
            pkg = 'p%d%d' % (i, j)
            w.pages['u%d' % j] = ('key: {ubuntu: {any_version: {i%d: '
                                  '{packages: [%s]}}}}\n' % (j, pkg))
            if state == 'load':
                w.pages['u%d' % j] = fault_page(S, 'fault', [
                    'http', 'rules', 'names'] if j == 0 else ['names'])
                if mem[j] is not None:
                    S.cover('kept')
                elif i == n - 1:
                    S.cover('never loaded')
                continue
            if i and mem[j] is None:
                S.cover('recovered')
            mem[j] = pkg
            if state == 'save':
                save_bad.append(db.sources[j].cache_file_path())
            elif op == 'update':
                disk[j] = pkg

        def hook(op, path):
            for p in save_bad:
                if str(path).startswith(p):
                    raise OSError(28, 'no space left on device')
        env.ST.fs_hook = hook
        how, e = attempt(db.update if op == 'update' else db.load_from_source)
        env.ST.fs_hook = None
        S.check(how == 'ok', "a failing source aborts the update")
        if None not in mem:
            want = {}
            for j in (1, 0):
                want['i%d' % j] = {'packages': [mem[j]]}
            got = db.lookup('key', ic)
            S.log('got', got)
            S.check(got == want, "the rules are not those of the last "
                    "successful load of each source")
    fresh = w.database()
    for j in range(2):
        s = fresh.sources[j]
        S.check(s.is_cache_available() == (disk[j] is not None),
                "cache of a failed source or none of an updated one")
        if disk[j] is not None:
            s.load_from_cache()
            S.check(s.lookup('key', ic) == {'i%d' % j: {
                'packages': [disk[j]]}}, "the cache is not the last saved")


@harness('C14', bounds="a strict database: the failure of any of two sources "
         "is raised", covers=['raised', 'fine'])
def strict_update_raises(S):
    w = World(S)
    w.write('a.yaml', '- rules: u0\n- rules: u1\n')
    w.context().ensure_cache_dir()
    i = S.pick('bad', [None, 0, 1])
    if i is not None:
        w.pages['u%d' % i] = fault_page(S, 'fault', FAULTS)
    db = w.database()
    how, e = attempt(S.pick('op', [db.update, db.load_from_source]))
    S.log('outcome', [how])
    S.check((how == 'exc') == (i is not None), "a failing source is not "
            "reported by a strict database")
    S.cover('raised' if i is not None else 'fine')


@harness('C41', bounds="one or two sources with or without an existing "
         "cache; the process dies before any of the first m file system "
         "operations of an update", quick=[{'n': 1, 'm': 12},
                                           {'n': 2, 'm': 14}],
         thorough=[{'n': 1, 'm': 20}, {'n': 3, 'm': 30}],
         covers=['died', 'survived', 'old', 'new', 'no cache'])
def interrupted_update_keeps_caches_whole(S, n, m):
    from xylem.update import update
    w = World(S)
    for i in range(n):
        w.write('%d.yaml' % i, '- rules: u%d\n' % i)
        w.pages['u%d' % i] = page(S, 'old%d' % i)
    had = S.bool('existing caches')
    w.context()
    if had:
        update(config=w.config)
    for i in range(n):
        w.pages['u%d' % i] = page(S, 'new%d' % i)
    point = S.pick('dies at', list(range(m + 1)))
    seen = []

    def hook(op, path):
        if len(seen) == point:
            env.ST.crashed = env.Crash()
            raise env.ST.crashed
        seen.append(op)
    env.ST.fs_hook = hook
    try:
        how, e = attempt(update, config=w.config)
    except env.Crash:
        how = 'died'
    env.ST.fs_hook = None
    env.ST.crashed = None
    S.log('ops', [how, len(seen)])
    S.cover('died' if how == 'died' else 'survived')
    db = w.database()
    for i, s in enumerate(db.sources):
        if not s.is_cache_available():
            S.check(not had, "interrupting an update loses a cache")
            S.check(how == 'died', "update did not create the cache")
            S.cover('no cache')
            continue
        res, e = attempt(s.load_from_cache)
        S.check(res == 'ok', "interrupting an update damages a cache")
        p = s.data['key']['ubuntu']['any_version']['apt']['packages'][0]
        text = 'key: {ubuntu: {any_version: {apt: {packages: [%s]}}}}\n' % p
        if text == w.pages['u%d' % i]:
            S.cover('new')
        else:
            S.check(had and how == 'died',
                    "a cache holds neither the old nor the new rules")
            S.cover('old')
    # the interrupted update can be repeated
    S.check(attempt(update, config=w.config)[0] == 'ok',
            "an interrupted update cannot be repeated")
    for i, s in enumerate(w.database().sources):
        s.load_from_cache()
        p = s.data['key']['ubuntu']['any_version']['apt']['packages'][0]
        S.check('key: {ubuntu: {any_version: {apt: {packages: [%s]}}}}\n' % p
                == w.pages['u%d' % i], "repeated update is incomplete")


@harness('C46', bounds="up to n updates and a lookup at the same time, each "
         "of one source with or without an existing cache or cache "
         "directory, its rules changing or not between the downloads; up "
         "to m switches between the processes, before any change of a file, "
         "download or reading; one process killed or not",
         quick=[{'n': 2, 'm': 2}, {'n': 1, 'm': 3}, {'n': 2, 'm': 2,
                                                     'lookup': False,
                                                     'kill': True}],
         thorough=[{'n': 2, 'm': 3, 'kill': True}, {'n': 3, 'm': 2}],
         covers=['at once', 'one after the other', 'old', 'new', 'created'])
def caches_of_concurrent_updates(S, n, m, lookup=True, kill=False):
    from xylem.update import update
    w = World(S)
    w.write('a.yaml', '- rules: u\n')
    names = [S.name('old')] + [S.name('new%d' % i) for i in range(n)]
    distinct(S, names)
    pages = ['key: {ubuntu: {any_version: {apt: {packages: [%s]}}}}\n' % x
             for x in names]
    w.pages['u'] = pages[0]
    w.context()
    had = S.bool('existing cache')
    if had:
        update(config=w.config)
    started = []
    procs = None
    load = w.open_url
    change = S.bool('rules change')

    def open_url(url, *a, **k):
        procs.step()
        started.append(procs.now)
        w.pages['u'] = pages[len(started) if change else 1]
        return load(url, *a, **k)
    env.ST.url = open_url

    def loaded(db):
        r = spec_lookup_of(db)
        for i, x in enumerate(names):
            if r == x:
                return i
        S.check(False, "a cache holds rules that no source had")

    def reader():
        db = w.database()
        procs.step()
        s = db.sources[0]
        if not s.is_cache_available():
            S.check(not had, "an update loses a cache for a while")
            return None
        procs.step()
        s.load_from_cache()
        return loaded(db)
    mains = [lambda: update(config=w.config) for _ in range(n)]
    if lookup:
        mains.append(reader)
    procs = Processes(S, mains, m, kill)
    err = io.StringIO()
    old, sys.stderr = sys.stderr, err
    try:
        results = procs.run()
    finally:
        sys.stderr = old
    S.log('results', [[r[0] for r in results], procs.switches])
    S.cover('at once' if procs.switches else 'one after the other')
    dead = [i for i in range(len(mains)) if results[i][0] == 'killed']
    for i, r in enumerate(results):
        S.check(r[0] == 'ok' or i in dead,
                "an update or lookup fails because of another one")
    S.check('Failed' not in err.getvalue(), "an update fails because of "
            "another one")
    if lookup and results[n][0] == 'ok':
        got = results[n][1]
        S.check(got is None or got > 0 or had, "old rules without a cache")
        if got is not None:
            S.cover('new' if got else 'old')
    db = w.database()
    s = db.sources[0]
    if not s.is_cache_available():
        S.check(not had and len([i for i in dead if i < n]) == n,
                "an update loses a cache")
        return
    S.check(attempt(s.load_from_cache)[0] == 'ok',
            "concurrent updates damage a cache")
    S.check(loaded(db) > 0 or had and dead, "the rules of no update are "
            "stored")
    if not had:
        S.cover('created')
    # a later update is not kept from storing its rules
    w.pages['u'] = pages[0]
    env.ST.url = load
    update(config=w.config)
    db = w.database()
    db.sources[0].load_from_cache()
    S.check(loaded(db) == 0, "later updates are not stored")


def spec_lookup_of(db):
    return db.sources[0].data['key']['ubuntu']['any_version']['apt'][
        'packages'][0]


@harness('C12', bounds="a source file with an arbitrary character in a URL, or "
         "not decodable at any of 3 places, next to another file; a locale "
         "using UTF-8, Latin-1 or ASCII",
         covers=['other locale', 'not decodable', 'fine'])
def source_files_of_any_locale(S):
    w = World(S)
    kind = S.pick('kind', ['fine', 'bad url', 'bad comment'])
    u = S.pick('url', ['u', 'h\u00fc', '\u4e2d', '\u20ac'])
    path = os.path.join(w.sources_dir, 'b.yaml')
    with open(path, 'wb') as f:
        f.write(('- rules: %s\n' % u).encode('utf-8'))
        if kind == 'bad url':
            f.write(b'- rules: x\xff\n')
        elif kind == 'bad comment':
            f.write(b'# \xff\n')
    w.write('c.yaml', '- rules: other\n')
    env.ST.encoding = S.pick('locale', ['utf-8', 'latin-1', 'ascii'])
    if env.ST.encoding != 'utf-8':
        S.cover('other locale')
    how, db = attempt(w.database)
    S.log('outcome', [how])
    S.check(how == 'ok', "a file that cannot be decoded affects others")
    got = [s.arguments for s in db.sources]
    if kind == 'fine':
        S.cover('fine')
        S.check(got == [u, 'other'], "sources are not those described")
    else:
        S.cover('not decodable')
        # what cannot be decoded may be replaced, or the file be skipped
        S.check(got == ['other'] or got[0] == u and got[-1] == 'other' and
                len(got) == (3 if kind == 'bad url' else 2),
                "sources are not those described")
    db.load_from_source()
    S.check(w.fetched == got, "not the described sources are loaded")


def make_default(w):
    """Make the directories the default ones, wherever these are kept."""
    import sys
    import xylem.sources.impl   # noqa
    for m in [m for x, m in sorted(sys.modules.items())
              if x.split('.')[0] == 'xylem']:
        for c, d in (('DEFAULT_SOURCES_DIR', w.sources_dir),
                     ('DEFAULT_CACHE_DIR', w.cache_dir)):
            if hasattr(m, c):
                env.patch(m, c, d)


@harness('C15', bounds="up to two sources or the built-in ones, in the default "
         "or other directories, with or without existing caches "
         "and cache directory, which holds other files or not, sources "
         "failing or not; one of the caches written by another spec or "
         "another version of it, long ago, or damaged; telling more of "
         "what it does or not",
         covers=['other files', 'changed cache', 'verbose', 'no directory', 'caches', 'failing',
                 'default directories', 'built-in sources'])
def dry_run_update_changes_nothing(S):
    from xylem.update import update
    w = World(S)
    n = S.count('n', 1, 2)
    if S.bool('default directories'):
        make_default(w)
        S.cover('default directories')
    builtin = S.bool('built-in sources')
    if builtin:
        os.rmdir(w.sources_dir)
        S.cover('built-in sources')
    for i in range(n):
        if not builtin:
            w.write('%d.yaml' % i, '- rules: u%d\n' % i)
        w.pages['u%d' % i] = page(S, 'old%d' % i)
    w.context()
    had = S.pick('before', ['nothing', 'directory', 'caches'])
    if had == 'directory':
        w.context().ensure_cache_dir()
    if had == 'caches':
        update(config=w.config)
        S.cover('caches')
    if had != 'nothing' and S.bool('other files'):
        # caches of sources that are not configured any more, and others
        S.cover('other files')
        for x in ('0123.rules.pickle', 'old.pickle', 'notes.txt', 'x.lock'):
            with open(os.path.join(w.cache_dir, x), 'w') as f:
                f.write(x)
        if had == 'caches' and not builtin:
            w.write('%d.yaml' % (n - 1), '- rules: moved\n')
            w.pages['moved'] = page(S, 'moved')
    elif had == 'caches':
        import pickle
        how = S.pick('cache', ['as written', 'spec_name', 'spec_version',
                               'time_data_loaded', 'xylem_version', 'data',
                               'damaged'])
        path = w.database().sources[n - 1].cache_file_path()
        if how == 'damaged':
            with open(path, 'wb') as f:
                f.write(b'garbage')
            S.cover('changed cache')
        elif how != 'as written':
            with open(path, 'rb') as f:
                data = pickle.loads(f.read())
            data[how] = {'spec_name': 'other', 'spec_version': 99,
                         'time_data_loaded': 0.0, 'xylem_version': '0.0.1',
                         'data': None}[how]
            with open(path, 'wb') as f:
                f.write(pickle.dumps(data, protocol=2))
            S.cover('changed cache')
    for i in range(n):
        w.pages['u%d' % i] = page(S, 'new%d' % i)
    if S.bool('failing'):
        w.pages['u0'] = fault_page(S, 'fault', ['http', 'yaml'])
        S.cover('failing')
    before = w.cache_files()
    ops = []
    if had == 'caches' and S.bool('verbose'):
        from xylem.log_utils import enable_verbose
        enable_verbose()
        S.cover('verbose')
    env.ST.fs_hook = lambda op, path: ops.append(op)
    how, e = attempt(update, dry_run=True, config=w.config)
    env.ST.fs_hook = None
    S.log('outcome', [how])
    S.check(how == 'ok', "dry run fails")
    S.check(ops == [], "dry run changes the file system")
    S.check(w.cache_files() == before, "dry run changes the cache")
    if had == 'nothing':
        S.check(not os.path.exists(w.cache_dir),
                "dry run creates the cache directory")
        S.cover('no directory')


# -- downloads ---------------------------------------------------------------------

class Slow(Response):
    """Response whose body cannot be read."""

    def __init__(self, e):
        super(Slow, self).__init__('')
        self.e = e

    def read(self, amt=None):
        raise self.e


@harness('C16', bounds="up to n attempts, each succeeding or failing with 503 "
         "or another HTTP status, a timeout (connecting or reading) of any of "
         "three messages, an incomplete answer, or another error; a hint when to retry or not; arbitrary retry count up to n and waiting time",
         quick=[{'n': 3}], thorough=[{'n': 5}],
         covers=['first', 'after retries', 'exhausted', 'permanent',
                 'negative'])
def bounded_retries(S, n):
    from xylem.load_url import load_url, DownloadFailure
    retry = S.int('retry', -1, n)
    period = S.int('period', 0, 1000)
    body = S.name('body')
    message = S.pick('message', [('timed out',), (), ('no answer',)])
    # only the configured time counts
    after = S.pick('retry after', [{}, {'Retry-After': '7'}, {
        'Retry-After': 'Wed, 21 Oct 2065 07:28:00 GMT'}]) \
        if message == () else {}
    outcomes = []

    def fetch(url, *a, **k):
        o = S.pick('attempt', ['ok', '503', 'timeout', 'read timeout',
                               'status', 'error', 'reset', 'incomplete'])
        outcomes.append(o)
        if len(outcomes) > n + 2:
            S.fail("more attempts than allowed")
        if o == 'ok':
            return Response(body)
        if o == '503':
            raise urllib.error.HTTPError(url, 503, 'busy', after, None)
        if o == 'incomplete':
            return Slow(http.client.IncompleteRead(b'k: {', 7))
        if o == 'status':
            code = S.int('status', 400, 599)
            S.assume(code != 503)
            raise urllib.error.HTTPError(url, code, 'error', {}, None)
        if o == 'timeout':
            raise urllib.error.URLError(socket.timeout(*message))
        if o == 'read timeout':
            return Slow(socket.timeout(*message))
        if o == 'reset':
            return Slow(ConnectionResetError(104, 'reset'))
        raise urllib.error.URLError(OSError('no route'))
    env.ST.url = fetch
    how, r = attempt(load_url, 'http://host/x', retry=retry,
                     retry_period=period)
    S.log('outcome', [how, outcomes, list(env.ST.slept)])
    last = outcomes[-1]
    transient = ('503', 'timeout', 'read timeout')
    S.check(all(o in transient for o in outcomes[:-1]),
            "an attempt was repeated although it did not fail transiently")
    allowed = retry if retry > 0 else 0
    S.check(len(outcomes) <= allowed + 1, "more retries than allowed")
    S.check(len(env.ST.slept) == len(outcomes) - 1,
            "not waited exactly once between attempts")
    for t in env.ST.slept:
        S.check(t == period, "waited for another time than configured")
    if last == 'ok':
        S.check(how == 'ok' and r == body, "successful download not returned")
        S.cover('first' if len(outcomes) == 1 else 'after retries')
    else:
        S.check(how == 'exc' and isinstance(r, DownloadFailure),
                "failed download not reported as download failure")
        if last in transient:
            S.check(len(outcomes) == allowed + 1, "gave up on a transient "
                    "failure although retries were left")
            S.cover('exhausted')
        else:
            S.cover('permanent')
    if retry < 0:
        S.cover('negative')


@harness('C16', bounds="two downloads of the same or different URLs, each "
         "with its own or the default retry count, of up to n attempts "
         "failing with 503 or a timeout",
         quick=[{'n': 2}], thorough=[{'n': 4}],
         covers=['both', 'exhausted', 'default'])
def retries_of_each_download(S, n):
    from xylem.load_url import load_url, DownloadFailure
    made = []

    def fetch(url, *a, **k):
        made[-1].append(url)
        if len(made[-1]) <= fail[len(made) - 1]:
            if S.bool('timeout'):
                raise urllib.error.URLError(socket.timeout('timed out'))
            raise urllib.error.HTTPError(url, 503, 'busy', {}, None)
        return Response('body')
    env.ST.url = fetch
    urls = ['http://host/x', S.pick('second', ['http://host/x',
                                               'http://other/y'])]
    fail, oks = [], 0
    for u in urls:
        retry = S.int('retry', 0, n)
        own = S.bool('own retry count')
        if not own:
            retry = 2
            S.cover('default')
        fail.append(S.count('failures', 0, n + 1))
        made.append([])
        how, r = attempt(load_url, u, **({'retry': retry} if own else {}))
        S.log('outcome', [how, len(made[-1])])
        S.check(all(x == u for x in made[-1]), "another URL is loaded")
        if fail[-1] <= retry:
            S.check(how == 'ok' and r == 'body', "gave up on a transient "
                    "failure although retries were left")
            S.check(len(made[-1]) == fail[-1] + 1, "wrong number of attempts")
            oks += 1
        else:
            S.check(how == 'exc' and isinstance(r, DownloadFailure),
                    "failed download not reported as download failure")
            S.check(len(made[-1]) == retry + 1, "wrong number of attempts")
            S.cover('exhausted')
    if oks == 2:
        S.cover('both')


@harness('C16', bounds="encodings utf-8, latin-1 and unspecified, declared "
         "in 10 ways", covers=['decoded', 'quoted', 'default'])
def download_encoding(S):
    from xylem.load_url import load_url
    text = 'a: \u00fc\n'
    enc = S.pick('charset', ['', 'utf-8', 'latin-1', 'UTF-8', 'ISO-8859-1'])
    if enc:
        way = S.pick('way', [
            'text/plain; charset=%s', 'text/plain;charset=%s',
            'text/plain; charset="%s"', 'text/plain; Charset=%s',
            'text/plain; charset=%s; boundary=x', 'text/plain; CHARSET="%s"',
            'text/plain; boundary=x; charset=%s',
            'text/plain ; charset=%s ; x=y',
            'text/plain; x="; charset=koi8-r"; charset=%s',
            'text/plain; xcharset=koi8-r; charset=%s'])
        headers = [(S.pick('name', ['Content-Type', 'content-type']),
                    way % enc)]
        S.cover('quoted' if '"' in way else 'decoded')
    else:
        headers = S.pick('headers', [
            [], [('Content-Type', 'text/plain')],
            [('Content-Type', 'text/plain; boundary=charset')],
            [('Content-Type', '')], [('Content-Encoding', 'identity')]])
        S.cover('default')
    r = Response('', headers)
    r._data = text.encode(enc or 'utf-8')
    env.ST.url = lambda url, *a, **k: r
    got = load_url('http://host/x')
    S.log('got', got)
    S.check(got == text, "download decoded wrongly")


@harness('C16', bounds="encodings declared that do not exist, are none of "
         "text or are malformed, quoted or not, next to data of any of 3 "
         "kinds", covers=['unknown'])
def download_unknown_encoding(S):
    from xylem.load_url import load_url, DownloadFailure
    enc = S.pick('charset', ['nonsense', 'utf-9', 'base64', 'hex', 'rot13',
                             'a\0b', 'x' * 40, '\u00e9'])
    r = Response('', [('Content-Type', 'text/plain; charset=' + (
        '"%s"' % enc if S.bool('quoted') else enc))])
    r._data = S.pick('data', [b'a: 1', b'YQ==', b'\xff\xfe'])
    loads = []

    def load(url, *a, **k):
        loads.append(url)
        return r
    env.ST.url = load
    how, got = attempt(load_url, 'http://host/x')
    S.log('got', [how])
    S.cover('unknown')
    S.check(how == 'exc' and isinstance(got, DownloadFailure),
            "data of an unknown encoding is not a download failure")
    S.check(len(loads) == 1, "repeated although it is no transient failure")
