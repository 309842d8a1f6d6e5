"""Environment of the code under test, shared by symbolic and native runs.

Everything outside the package that a property depends on (installed
plugins, child processes, user id, network, clock, file system faults) is
answered from here, so that it can be a symbolic input.  File system
changes outside the run's scratch directory are refused.
"""

import ast
import builtins
import errno
import io
import os
import os.path
import shutil
import subprocess
import sys
import tempfile
import time
import types
import urllib.request

from symx.files import remove_tree

REPO = os.environ.get('VERIF_REPO', '/repo')


class State(object):
    pass


ST = State()
ST.S = None


def reset(S, place=None):
    ST.S = S
    ST.place = place
    ST.patches = []
    ST.environ = dict(os.environ)
    ST.scratch = None
    ST.euid = 1000
    ST.commands = []          # (kind, command) of every child process
    ST.process = None         # handler(cmd) -> (code, out, err)
    ST.entry_points = {}
    ST.url = None
    ST.slept = []
    ST.fs_hook = None
    ST.crashed = None
    ST.encoding = None        # encoding of the locale for text files
    ST.cwd = os.getcwd()
    for k in list(os.environ):
        if k.startswith('XYLEM') or k in ('ROS_OS_OVERRIDE',):
            del os.environ[k]
    os.environ['HOME'] = '/nonexistent/home'
    os.environ['LANG'] = 'C.UTF-8'


def restore():
    ST.S = None
    ST.fs_hook = None
    ST.crashed = None
    for obj, name, old in reversed(ST.patches):
        setattr(obj, name, old)
    ST.patches = []
    for k in list(os.environ):
        if k not in ST.environ:
            del os.environ[k]
    for k, v in ST.environ.items():
        if os.environ.get(k) != v:
            os.environ[k] = v
    if ST.scratch is not None:
        _rmtree(ST.scratch)
        ST.scratch = None


def patch(obj, name, value):
    ST.patches.append((obj, name, getattr(obj, name)))
    setattr(obj, name, value)


# -- scratch directory -------------------------------------------------------

def _rmtree(path):
    if '/xv-scratch-' in path:
        remove_tree(path)


def scratch():
    if ST.scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        if ST.place is not None:
            # the same directory as in the run before
            d = ST.place
            ORIG['mkdir'](d, 0o700)
        else:
            d = ORIG['mkdtemp'](prefix='xv-scratch-', dir=base)
        ST.scratch = os.path.realpath(d)
    return ST.scratch


def in_scratch(path):
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not isinstance(path, str):
        path = os.fspath(path) if hasattr(path, '__fspath__') else str(path)
    p = os.path.abspath(path)
    if ST.scratch is None:
        return False
    return p == ST.scratch or p.startswith(ST.scratch + '/')


class Crash(BaseException):
    """The simulated process died; the file system no longer changes."""


def fs_op(op, path, path2=None):
    """Called before every change of the file system."""
    if ST.S is None:
        return
    for p in (path, path2):
        if p is None:
            continue
        if str(p).startswith('/dev/') and not in_scratch(p):
            continue
        if not in_scratch(p):
            raise OSError(errno.EACCES, 'outside the scratch directory: %s'
                          % (p,))
    if ST.crashed is not None:
        raise ST.crashed
    if ST.fs_hook is not None:
        ST.fs_hook(op, path)


class FaultyFile(object):
    """File object whose every write is a separate, unbuffered step."""

    def __init__(self, f, path):
        self._f = f
        self._path = path

    def write(self, data):
        fs_op('write', self._path)
        h = len(data) // 2
        if h:
            self._f.write(data[:h])
            self._f.flush()
            fs_op('write', self._path)
        self._f.write(data[h:])
        self._f.flush()
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def truncate(self, *a):
        fs_op('write', self._path)
        return self._f.truncate(*a)

    def close(self):
        self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()
        return False

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, name):
        return getattr(self._f, name)


def _writes(mode):
    for c in mode:
        if c in 'wax+':
            return True
    return False


ORIG = {}


def _wrap_open(name):
    def fake_open(file, mode='r', *a, **k):
        f0 = ORIG[name]
        if ST.S is not None and ST.encoding and 'b' not in mode and \
                len(a) < 2 and k.get('encoding') is None:
            k = dict(k)
            k['encoding'] = ST.encoding
        if ST.S is None or isinstance(file, int) and ST.fs_hook is None:
            return f0(file, mode, *a, **k)
        if not _writes(mode):
            return f0(file, mode, *a, **k)
        if isinstance(file, int):
            f = f0(file, mode, *a, **k)
            return FaultyFile(f, os.readlink('/proc/self/fd/%d' % file))
        fs_op('open-' + mode.replace('b', '').replace('t', ''), file)
        f = f0(file, mode, *a, **k)
        if ST.fs_hook is not None:
            return FaultyFile(f, file)
        return f
    return fake_open


def _wrap_path_op(name, two=False):
    if two:
        def op(a, b, *r, **k):
            fs_op(name, a, b)
            return ORIG[name](a, b, *r, **k)
    else:
        def op(a, *r, **k):
            fs_op(name, a)
            return ORIG[name](a, *r, **k)
    return op


def fake_os_open(path, flags, *a, **k):
    if ST.S is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT |
                                     os.O_TRUNC):
        fs_op('open-w', path)
    return ORIG['os_open'](path, flags, *a, **k)


def fake_os_write(fd, data):
    if ST.S is not None and ST.fs_hook is not None:
        fs_op('write', os.readlink('/proc/self/fd/%d' % fd))
    return ORIG['os_write'](fd, data)


def fake_mkdtemp(suffix=None, prefix=None, dir=None):
    if ST.S is not None and dir is None:
        dir = scratch()
    return ORIG['mkdtemp'](suffix, prefix, dir)


def fake_mkstemp(suffix=None, prefix=None, dir=None, text=False):
    if ST.S is not None and dir is None:
        dir = scratch()
    return ORIG['mkstemp'](suffix, prefix, dir, text)


# -- child processes -----------------------------------------------------------

def run_process(kind, cmd):
    """Record one child process; (exit code, stdout, stderr)."""
    ST.commands.append((kind, cmd))
    if ST.process is None:
        return 0, '', ''
    return ST.process(cmd)


def _text(kw):
    return bool(kw.get('universal_newlines') or kw.get('text') or
                kw.get('encoding'))


def _out(data, kw):
    return data if _text(kw) or data is None else data.encode('utf-8')


PIPE_SIZE = 65536


class Pipe(object):
    """What a program writes, as far as it is not read."""

    def __init__(self, process, data):
        self.process = process
        self.data = data

    def take(self, n):
        n = len(self.data) if n is None or n < 0 else n
        got, self.data = self.data[:n], self.data[n:]
        return got

    def read(self, n=-1):
        # the end is not reached before all other output is read
        if (n is None or n < 0) and self.process._blocked(
                [p for p in self.process._pipes if p is not self]):
            raise RuntimeError('deadlock: output of a program not read')
        return self.take(n)

    def readlines(self):
        data = self.read()
        return (io.StringIO(data) if isinstance(data, str)
                else io.BytesIO(data)).readlines()

    def readline(self):
        i = self.data.find('\n' if isinstance(self.data, str) else b'\n')
        return self.take(i + 1 if i >= 0 else -1)

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class FakePopen(object):
    def __init__(self, args, *a, **kw):
        self.args = args
        self._kw = kw
        code, out, err = run_process('Popen', args)
        self._code = code
        self.returncode = None
        self._pipes = []
        if kw.get('stderr') == subprocess.STDOUT:
            out, err = out + err, ''
        self.stdout = self._pipe(out) if kw.get('stdout') == \
            subprocess.PIPE else None
        self.stderr = self._pipe(err) if kw.get('stderr') == \
            subprocess.PIPE else None
        self.pid = 4242

    def _pipe(self, data):
        self._pipes.append(Pipe(self, _out(data, self._kw)))
        return self._pipes[-1]

    def _blocked(self, pipes):
        return any(len(p.data) > PIPE_SIZE for p in pipes)

    def communicate(self, input=None, timeout=None):
        self.returncode = self._code
        out, err = [p.take(-1) if p in self._pipes else None
                    for p in (self.stdout, self.stderr)]
        return out, err

    def wait(self, timeout=None):
        if self._blocked(self._pipes):
            raise RuntimeError('deadlock: output of a program not read')
        self.returncode = self._code
        return self._code

    def poll(self):
        if not self._blocked(self._pipes):
            self.returncode = self._code
        return self.returncode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def fake_call(args, *a, **kw):
    return run_process('call', args)[0]


def fake_check_call(args, *a, **kw):
    code = run_process('check_call', args)[0]
    if code:
        raise subprocess.CalledProcessError(code, args)
    return 0


def fake_check_output(args, *a, **kw):
    code, out, err = run_process('check_output', args)
    if code:
        raise subprocess.CalledProcessError(code, args, _out(out, kw))
    return _out(out, kw)


def fake_run(args, *a, **kw):
    code, out, err = run_process('run', args)
    if code and kw.get('check'):
        raise subprocess.CalledProcessError(code, args, _out(out, kw))
    return subprocess.CompletedProcess(args, code, _out(out, kw),
                                       _out(err, kw))


def fake_system(cmd):
    return run_process('system', cmd)[0]


def fake_geteuid():
    return ST.euid


def fake_sleep(t):
    ST.slept.append(t)


def fake_urlopen(url, *a, **kw):
    if ST.url is None:
        raise OSError('no network')
    return ST.url(url, *a, **kw)


def _delegate(obj, name, key, fake):
    ORIG[key] = getattr(obj, name)

    def f(*a, **k):
        if ST.S is None:
            return ORIG[key](*a, **k)
        return fake(*a, **k)
    setattr(obj, name, f)


class _PopenMeta(type):
    def __call__(cls, *a, **k):
        if ST.S is None:
            return ORIG['Popen'](*a, **k)
        return FakePopen(*a, **k)


def install():
    if ORIG:
        return
    ORIG['open'] = builtins.open
    ORIG['io.open'] = io.open
    ORIG['mkdtemp'] = tempfile.mkdtemp
    ORIG['mkstemp'] = tempfile.mkstemp
    ORIG['os_open'] = os.open
    ORIG['os_write'] = os.write
    builtins.open = _wrap_open('open')
    io.open = _wrap_open('io.open')
    tempfile.mkdtemp = fake_mkdtemp
    tempfile.mkstemp = fake_mkstemp
    os.open = fake_os_open
    os.write = fake_os_write
    for n in ('mkdir', 'makedirs', 'remove', 'unlink', 'rmdir', 'truncate',
              'chmod', 'removedirs', 'utime'):
        ORIG[n] = getattr(os, n)
        setattr(os, n, _wrap_path_op(n))
    for n in ('rename', 'replace', 'link', 'symlink', 'renames'):
        ORIG[n] = getattr(os, n)
        setattr(os, n, _wrap_path_op(n, True))
    ORIG['rmtree'] = shutil.rmtree
    shutil.rmtree = _wrap_path_op('rmtree')
    for n, f in (('call', fake_call), ('check_call', fake_check_call),
                 ('check_output', fake_check_output), ('run', fake_run)):
        _delegate(subprocess, n, n, f)
    ORIG['Popen'] = subprocess.Popen
    subprocess.Popen = _PopenMeta('Popen', (object,), {})
    _delegate(os, 'system', 'system', fake_system)
    _delegate(os, 'geteuid', 'geteuid', fake_geteuid)
    _delegate(os, 'getuid', 'getuid', fake_geteuid)
    _delegate(time, 'sleep', 'sleep', fake_sleep)
    _delegate(urllib.request, 'urlopen', 'urlopen', fake_urlopen)
    for n in ('execv', 'execve', 'execvp', 'execvpe', 'fork', 'popen',
              'kill', 'posix_spawn', 'posix_spawnp'):
        def refuse(*a, **k):
            raise OSError('refused in a harness')
        _delegate(os, n, n, refuse)
    m = types.ModuleType('pkg_resources')
    m.DistributionNotFound = DistributionNotFound
    m.require = lambda name: [Distribution()]
    m.get_distribution = lambda name: Distribution()
    m.iter_entry_points = iter_entry_points
    m.resource_listdir = resource_listdir
    m.resource_string = resource_string
    m.resource_filename = resource_filename
    m.resource_exists = lambda p, n: os.path.exists(resource_filename(p, n))
    sys.modules['pkg_resources'] = m


# -- packaging -------------------------------------------------------------------

class DistributionNotFound(Exception):
    pass


class Distribution(object):
    version = '0.1.0'


class EntryPoint(object):
    def __init__(self, name, target, module=''):
        self.name = name
        self._target = target
        self.module_name = module
        self.attrs = ()

    def load(self, *a, **k):
        return self.resolve()

    def resolve(self):
        t = self._target
        if isinstance(t, BaseException):
            raise t
        if isinstance(t, str):
            mod, attr = t.split(':')
            __import__(mod)
            return getattr(sys.modules[mod], attr)
        return t

    def __str__(self):
        return '%s = %s' % (self.name, self._target)

    def require(self, *a, **k):
        pass


_declared = None


def declared_entry_points():
    """entry_points of /repo's setup.py."""
    global _declared
    if _declared is None:
        _declared = {}
        with ORIG['open'](os.path.join(REPO, 'setup.py')) as f:
            tree = ast.parse(f.read())
        for node in ast.walk(tree):
            if isinstance(node, ast.keyword) and node.arg == 'entry_points':
                d = ast.literal_eval(node.value)
                for g, eps in d.items():
                    _declared[g] = [tuple(p.strip() for p in e.split('=', 1))
                                    for e in eps]
    return _declared


def set_entry_points(group, items):
    ST.entry_points[group] = items


def iter_entry_points(group, name=None):
    items = ST.entry_points.get(group)
    if items is None:
        items = declared_entry_points().get(group, [])
    out = []
    for n, t in items:
        if name is None or n == name:
            out.append(EntryPoint(n, t))
    return iter(out)


def resource_filename(package, name):
    return os.path.join(REPO, *(package.split('.') + [name]))


def resource_listdir(package, name):
    return os.listdir(resource_filename(package, name))


def resource_string(package, name):
    with ORIG['open'](resource_filename(package, name), 'rb') as f:
        return f.read()


install()
