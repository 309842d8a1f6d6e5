"""Decide one property: explore its harnesses, replay, write evidence."""

import argparse
import glob
import json
import os
import io
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HDIR = os.path.join(VERIF, 'harness')
REPO = os.environ.get('VERIF_REPO', '/repo')
NATIVE_PY = '/opt/venv/bin/python'

sys.path.insert(0, VERIF)

import z3                                             # noqa: E402
from symx import core, hapi, loader, rt               # noqa: E402
from symx import strings as st                        # noqa: E402
from symx.api import SymS                             # noqa: E402


class PathTimeout(core.Control):
    pass


def modules():
    return sorted(os.path.basename(p)[:-3]
                  for p in glob.glob(os.path.join(HDIR, '*.py')))


def setup():
    roots = {'xylem': REPO}
    for m in modules():
        roots[m] = HDIR
    loader.FINDER = loader.Finder(roots)
    sys.meta_path.insert(0, loader.FINDER)
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(VERIF, 'symx'))


def prop_modules(prop):
    """Harness modules that mention the property."""
    out = []
    for m in modules():
        with open(os.path.join(HDIR, m + '.py')) as f:
            if ("'%s'" % prop) in f.read():
                out.append(m)
    return out


def load_known(prop):
    keys = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, text = rest.split(' ', 1)
                keys[key.split('=', 1)[1]] = text
    return keys


# -- one path -----------------------------------------------------------------

class PathResult(object):
    pass


def on_alarm(signum, frame):
    core.ENGINE.aborting = PathTimeout()
    raise core.ENGINE.aborting


class Explorer(object):

    def __init__(self, known, path_timeout=120):
        self.engine = core.Engine()
        core.set_engine(self.engine)
        self.known = known
        self.path_timeout = path_timeout
        self.env = __import__('env')
        signal.signal(signal.SIGALRM, on_alarm)

    def reset(self):
        st.T.reset()
        rt.FakeHashlib.memo.clear()
        rt.LRU.clear()
        loader.purge()

    def run_path(self, h, config, first=None):
        """Execute one path; returns a result dictionary.

        ``first`` is the seed of a concrete run in the same process before
        it, whose module and class level state is kept.
        """
        self.reset()
        place = None
        if first is not None:
            place, _ = hapi.first_run(h, config, first, self.env, self.known)
            st.T.reset()
        S = SymS(self.engine, self.known)
        self.env.reset(S, place)
        r = {'status': 'ok'}
        so, se, cwd = sys.stdout, sys.stderr, os.getcwd()
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        e = self.engine
        signal.alarm(self.path_timeout)
        try:
            try:
                h.fn(S, **config)
            finally:
                signal.alarm(0)
                sys.stdout, sys.stderr = so, se
            if e.aborting is not None:
                raise e.aborting
        except core.PathInfeasible:
            r['status'] = 'infeasible'
        except core.PathCut as x:
            r['known_cut'] = str(x) == 'known finding'
        except core.Violation as v:
            r.update(status='violation', msg=v.msg, tape=v.tape)
        except core.BoundExceeded as x:
            r.update(status='bound', msg=str(x))
        except core.SolverUnknown as x:
            r.update(status='unknown', msg=str(x))
        except core.Unsupported as x:
            r.update(status='unsupported', msg=str(x),
                     trace=traceback.format_exc())
        except PathTimeout:
            e.aborting = None
            r.update(status='violation', tape=S.tape(e.get_model()),
                     msg='does not terminate within %d s'
                     % self.path_timeout)
        except BaseException as x:
            if e.aborting is not None and not isinstance(
                    e.aborting, (core.Violation, PathTimeout)):
                r.update(status='unsupported', msg=str(e.aborting),
                         trace=traceback.format_exc())
            elif isinstance(e.aborting, core.Violation):
                r.update(status='violation', msg=e.aborting.msg,
                         tape=e.aborting.tape)
            else:
                r.update(status='violation',
                         msg='uncaught %s: %s' % (type(x).__name__, x),
                         trace=traceback.format_exc(),
                         tape=S.tape(e.get_model()))
        finally:
            try:
                S.run_cleanups()
            finally:
                self.env.restore()
                os.chdir(cwd)
        if r['status'] in ('ok',):
            e.finish_path()
            r['covered'] = S.covered
        r['S'] = S
        return r

    def usable_seed(self, h, config, seed):
        """The first seed from the given one with a run to the end."""
        for i in range(seed, seed + 50):
            self.reset()
            if hapi.first_run(h, config, i, self.env, self.known)[1]:
                return i
        return seed

    def run_slice(self, h, config, prefix, seconds, max_paths=10 ** 9,
                  first=None):
        e = self.engine
        e.stats = core.Stats()
        e.notes = {}
        e.begin(())
        if first is not None and not prefix:
            first = self.usable_seed(h, config, first)
        e.begin(prefix)
        t0 = time.time()
        out = {'paths': 0, 'infeasible': 0, 'covered': set(),
               'violations': [], 'problems': [], 'witnesses': [],
               'known': {}, 'open': [], 'max_depth': 0}
        n = 0
        while e.next_path():
            n += 1
            r = self.run_path(h, config, first)
            S = r.pop('S')
            out['max_depth'] = max(out['max_depth'], len(e.stack))
            stt = r['status']
            if stt == 'infeasible':
                out['infeasible'] += 1
            elif stt == 'ok':
                out['paths'] += 1
                out['covered'] |= r['covered']
                out['known'].update(S.known_hits)
                if n & (n - 1) == 0 or n % 997 == 0:
                    e.aborting = None
                    m = e.get_model()
                    out['witnesses'].append(
                        {'tape': S.tape(m), 'logs': S.logs_under(m),
                         'known': r.get('known_cut', False)})
            elif stt == 'violation':
                out['paths'] += 1
                out['violations'].append(r)
                if len(out['violations']) >= 4:
                    out['stop'] = True
                    break
            else:
                out['problems'].append(r)
                if len(out['problems']) >= 3:
                    out['stop'] = True
                    break
            if time.time() - t0 > seconds or n >= max_paths:
                out['open'] = e.open_prefixes()
                break
        out['stats'] = e.stats.as_dict()
        out['notes'] = dict(e.notes)
        out['first'] = first
        out['funcs'] = sorted(
            "%s.%s" % f for f in rt.FUNCS_ENTERED
            if f[0] and f[0].split('.')[0] == 'xylem')
        out['seconds'] = time.time() - t0
        return out


# -- worker pool ---------------------------------------------------------------

def worker(conn, prop, tier, known):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(5000)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        ex = Explorer(known)
        jobs = joblist(prop, tier)
        while True:
            msg = conn.recv()
            if msg is None:
                return
            i, j, prefix, seconds, maxp, first = msg
            h, config = jobs[j]
            try:
                conn.send((i, ex.run_slice(h, config, prefix, seconds, maxp,
                                           first)))
            except core.Control as x:
                conn.send((i, {'fatal': "%s: %s" % (type(x).__name__, x)}))
            except Exception:
                conn.send((i, {'fatal': traceback.format_exc()}))
    except (EOFError, KeyboardInterrupt, BrokenPipeError):
        pass


def joblist(prop, tier, only=None):
    for m in prop_modules(prop):
        __import__(m)
    jobs = []
    for h in hapi.REG.get(prop, []):
        if only and h.name != only:
            continue
        for c in h.configs(tier):
            jobs.append((h, c))
    return jobs


def native_replay(items, repo=REPO, timeout=300):
    """items: [(harness, config, tape, seed of the run before or None)]
    -> results of the real code."""
    jobs = [{'module': h.fn.__module__, 'prop': h.prop, 'name': h.name,
             'config': c, 'tape': t, 'first': f,
             'known': sorted(load_known(h.prop))}
            for h, c, t, f in items]
    envv = {k: v for k, v in os.environ.items()
            if not k.startswith('PYTHON')}
    envv['PYTHONHASHSEED'] = envv.get('VERIF_SEED', '1')
    envv['VERIF_REPO'] = repo
    try:
        p = subprocess.run(
            [NATIVE_PY, os.path.join(VERIF, 'symx', 'native.py'), repo,
             HDIR], input=json.dumps(jobs), stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, text=True, timeout=timeout, env=envv)
    except subprocess.TimeoutExpired:
        return [{'status': 'timeout', 'msg': 'native run did not end',
                 'logs': []} for _ in jobs]
    try:
        return json.loads(p.stdout)
    except ValueError:
        return [{'status': 'error', 'msg': p.stderr[-2000:], 'logs': []}
                for _ in jobs]


SECOND_S = int(os.environ.get('VERIF_SECOND_S', 20))   # seconds for all runs after another run
SECOND_PATHS = 300      # paths of each


class Run(object):
    """The exploration of a job, maybe after a concrete run."""

    def __init__(self, j, first):
        self.j = j
        self.first = first
        self.agg = new_agg()
        self.complete = False
        self.pending = 0

    def item(self, jobs, tape):
        h, c = jobs[self.j]
        return h, c, tape, self.first


def second_runs(jobs, tier):
    """Each job after some concrete run of it."""
    seed = int(os.environ.get('VERIF_SEED', '1'))
    n = int(os.environ.get('VERIF_SECOND', 2 if tier == 'quick' else 6))
    return [Run(j, 10000 * seed + 100 * k)
            for k in range(n) for j, (h, _) in enumerate(jobs) if h.history]


class Pool(object):

    def __init__(self, procs, t0, verbose):
        self.n = len(procs)
        self.idle = [a for _, a in procs]
        self.violations = []
        self.problems = []
        self.t0 = t0
        self.verbose = verbose

    def explore(self, jobs, runs, deadline, limit=10 ** 9):
        """Explore the runs; False if it ended before all was explored."""
        from multiprocessing.connection import wait
        queue = [(i, []) for i in range(len(runs))]
        for r in runs:
            r.pending = 1
        idle, busy = self.idle, {}
        violations, problems = self.violations, self.problems
        maxp = 60
        stop = False
        while queue or busy:
            while queue and idle and not stop:
                # shallow prefixes first: they hide the largest subtrees
                i, prefix = queue.pop(0)
                r = runs[i]
                if r.agg['paths'] >= limit:
                    continue
                c = idle.pop()
                starving = len(queue) < self.n
                c.send((i, r.j, prefix, 0.7 if starving else 4.0,
                        maxp if starving or limit < 10 ** 9 else 10 ** 9,
                        r.first))
                busy[c] = i
            if not busy:
                break
            for c in wait(list(busy), timeout=5):
                try:
                    i, out = c.recv()
                except EOFError:
                    problems.append({'msg': 'worker died (memory?)'})
                    busy.pop(c)
                    continue
                busy.pop(c)
                idle.append(c)
                r = runs[i]
                r.pending -= 1
                if 'fatal' in out:
                    problems.append({'msg': out['fatal'],
                                     'h': jobs[r.j][0].name})
                    continue
                merge(r.agg, out)
                r.first = out['first']
                for v in out['violations']:
                    violations.append((r, v))
                for p in out['problems']:
                    p['h'] = jobs[r.j][0].name
                    problems.append(p)
                for pre in out['open']:
                    queue.append((i, pre))
                    r.pending += 1
                queue.sort(key=lambda q: len(q[1]))
            if self.verbose and time.time() - self.t0 > self.verbose:
                self.verbose += 10
                print("  %5.0fs queue=%d paths=%d viol=%d prob=%d" % (
                    time.time() - self.t0, len(queue),
                    sum(r.agg['paths'] for r in runs), len(violations),
                    len(problems)), file=sys.stderr)
            if len(violations) >= 6 or len(problems) >= 12 or \
                    deadline and time.time() > deadline:
                stop = True
        for r in runs:
            r.complete = r.pending == 0
        return all(r.complete for r in runs)


def run_property(prop, tier, njobs, verbose, only=None, budget=None):
    import multiprocessing as mp
    t0 = time.time()
    known = load_known(prop)
    jobs = joblist(prop, tier, only)
    if not jobs:
        print("no harness for %s" % prop)
        return 2
    ctx = mp.get_context('fork')
    njobs = max(1, njobs)
    procs = []
    for _ in range(njobs):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, prop, tier, known),
                        daemon=True)
        if only:
            p = ctx.Process(target=worker_only,
                            args=(b, prop, tier, known, only), daemon=True)
        p.start()
        b.close()
        procs.append((p, a))
    pool = Pool(procs, t0, verbose)
    runs = [Run(j, None) for j in range(len(jobs))]
    complete = pool.explore(jobs, runs, budget and t0 + budget)
    if not complete and not pool.violations and not pool.problems:
        pool.problems.append({'msg': 'time budget of %d s used up before '
                              'the exploration was complete' % budget})
    # ---- the same after another run in the same process -------------------
    again = []
    if complete and not pool.violations and not pool.problems:
        again = second_runs(jobs, tier)
        pool.explore(jobs, again, time.time() + (
            SECOND_S if tier == 'quick' else 10 * SECOND_S),
            SECOND_PATHS if tier == 'quick' else 10 * SECOND_PATHS)
    violations, problems = pool.violations, pool.problems
    agg = [r.agg for r in runs]
    for p, a in procs:
        p.terminate()
    t_explore = time.time() - t0

    # ---- counterexamples are replayed against the real code -------------
    confirmed = None
    unconfirmed = []
    for r, v in violations:
        # one process per counterexample: state cannot leak
        n = native_replay([r.item(jobs, v['tape'])], timeout=300)[0]
        if n['status'] in ('violation', 'exception', 'timeout'):
            confirmed = (r, v, n)
            break
        unconfirmed.append((r, v, n))
    # ---- witnesses: the encoding agrees with the real code --------------
    wit = []
    for group, total in ((runs, 24), (again, 8)):
        total = total if tier == 'quick' else total * 5 // 2
        per = max(2, total // len(group)) if group else 0
        if len(group) > total:
            group = group[:total]
        for r in group:
            ws = r.agg['witnesses']
            step = max(1, len(ws) // per)
            wit += [(r, w) for w in ws[::step][:per]]
    validated = 0
    mismatches = []
    if confirmed is None and wit:
        res = native_replay([r.item(jobs, w['tape']) for r, w in wit],
                            timeout=600)
        for (r, w), n in zip(wit, res):
            if n['status'] == ('known' if w.get('known') else 'ok') and \
                    json.loads(json.dumps(w['logs'])) == n['logs']:
                validated += 1
            else:
                # also when the real code fails where the encoding saw no
                # failure: still a concrete failing input of the real code
                mismatches.append((r, w, n))
    # ---- vacuity ---------------------------------------------------------
    missing = []
    if complete and not violations and not problems:
        byh = {}
        for (h, c), a in zip(jobs, agg):
            byh.setdefault(h.name, (h, set()))[1].update(a['covered'])
        for n, (h, cov) in byh.items():
            for c in h.covers:
                if c not in cov:
                    missing.append("%s: %s" % (n, c))
            if not any(a['paths'] for (hh, _), a in zip(jobs, agg)
                       if hh.name == n):
                missing.append("%s: no feasible path" % n)

    wall = time.time() - t0
    ev = evidence(prop, tier, jobs, runs, again, wit, validated, wall,
                  complete, confirmed, known)
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    tot = {k: sum(r.agg['stats'].get(k, 0) for r in runs + again)
           for k in core.Stats.FIELDS + ('solver_s',)}
    print("%s %s: %d paths, %d after another run, %d decisions, %d queries, "
          "solver %.1fs, witnesses %d/%d, explore %.1fs, wall %.1fs" % (
              prop, tier, sum(a['paths'] for a in agg),
              sum(r.agg['paths'] for r in again), tot['decisions'],
              tot['queries'], tot['solver_s'], validated, len(wit),
              t_explore, wall))
    if verbose is not False:
        for (h, c), a in zip(jobs, agg):
            print("   %-34s %-30s paths=%d infeasible=%d depth=%d %.1fs" % (
                h.name, c, a['paths'], a['infeasible'], a['max_depth'],
                a['seconds']))
            for n, k in sorted(a['notes'].items()):
                print("        note: %s (%d)" % (n, k))
        for r in again:
            print("   again %-28s %-30s paths=%d %s %.1fs" % (
                jobs[r.j][0].name, jobs[r.j][1], r.agg['paths'],
                'complete' if r.complete else 'cut', r.agg['seconds']))
    if confirmed is not None:
        r, v, n = confirmed
        path = write_replay(prop, r.item(jobs, v['tape']), v['msg'], n)
        print("counterexample (%s): %s" % (jobs[r.j][0].name, v['msg']))
        if r.first is not None:
            print("after another run in the same process")
        print("native: %s: %s" % (n['status'], n['msg']))
        if verbose is not False:
            print(json.dumps(v['tape'], indent=1))
            print(v.get('trace', ''))
            print(n.get('trace', ''))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    native_fail = [m for m in mismatches
                   if m[2]['status'] in ('violation', 'exception')]
    if native_fail:
        r, w, n = native_fail[0]
        path = write_replay(prop, r.item(jobs, w['tape']), n['msg'], n)
        print("witness fails on the real code (%s): %s" % (
            jobs[r.j][0].name, n['msg']))
        print(n.get('trace', ''))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    rc = 0
    for r, v, n in unconfirmed:
        print("ERROR: counterexample of %s%s does not replay: %s (native: %s)"
              % (jobs[r.j][0].name, ' after another run' if r.first is not None else '',
                 v['msg'], n['status']))
        if verbose is not False:
            print(json.dumps(v['tape'], indent=1))
            print(v.get('trace', ''))
        rc = 2
    for r, w, n in mismatches:
        print("ERROR: witness of %s%s: encoding and real code differ (%s %s)"
              % (jobs[r.j][0].name, ' after another run' if r.first is not None else '',
                 n['status'], n['msg']))
        if verbose is not False:
            print(json.dumps(w['tape'], indent=1))
            a, b = json.loads(json.dumps(w['logs'])), n['logs']
            for x, y in zip(a, b):
                if x != y:
                    print("   symbolic:", x)
                    print("   native:  ", y)
        rc = 2
    for p in problems[:6]:
        print("ERROR: %s: %s" % (p.get('h', ''), p['msg']))
        if verbose is not False and p.get('trace'):
            print(p['trace'])
        rc = 2
    for m in missing:
        print("ERROR: vacuous: %s" % m)
        rc = 2
    if not complete and rc == 0:
        print("ERROR: exploration incomplete")
        rc = 2
    for key in sorted(known):
        if any(key in a['known'] for a in agg):
            print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
    return rc


def worker_only(conn, prop, tier, known, only):
    global joblist
    jl = joblist
    joblist = lambda p, t: jl(p, t, only)
    worker(conn, prop, tier, known)


def new_agg():
    return {'paths': 0, 'infeasible': 0, 'covered': set(), 'witnesses': [],
            'known': {}, 'stats': {}, 'notes': {}, 'funcs': set(),
            'seconds': 0.0, 'max_depth': 0}


def merge(a, o):
    a['paths'] += o['paths']
    a['infeasible'] += o['infeasible']
    a['covered'] |= o['covered']
    a['witnesses'] += o['witnesses']
    if len(a['witnesses']) > 600:
        a['witnesses'] = a['witnesses'][::2]
    a['known'].update(o['known'])
    for k, v in o['stats'].items():
        a['stats'][k] = a['stats'].get(k, 0) + v
    for k, v in o['notes'].items():
        a['notes'][k] = a['notes'].get(k, 0) + v
    a['funcs'] |= set(o['funcs'])
    a['seconds'] += o['seconds']
    a['max_depth'] = max(a['max_depth'], o['max_depth'])


def write_replay(prop, item, msg, n):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % prop)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'harness': item[0].name,
                   'config': item[1], 'tape': item[2], 'first': item[3],
                   'message': msg,
                   'native': {k: n[k] for k in n if k != 'logs'}},
                  f, indent=1)
    return path


def evidence(prop, tier, jobs, runs, again, wit, validated, wall, complete,
             confirmed, known):
    tot = {}
    agg = [r.agg for r in runs]
    for r in runs + again:
        for k, v in r.agg['stats'].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted(set().union(*[a['funcs'] for a in agg]))
    samples = []
    seen = set()
    for r, w in wit:
        if r.j not in seen and len(samples) < 12:
            seen.add(r.j)
            samples.append({'harness': jobs[r.j][0].name,
                            'config': jobs[r.j][1], 'inputs': w['tape'],
                            'observed': w['logs'][:6]})
    hs = []
    for (h, c), a in zip(jobs, agg):
        hs.append({'harness': h.name, 'config': c, 'bounds': h.bounds,
                   'outside_bounds': h.outside,
                   'paths': a['paths'], 'infeasible': a['infeasible'],
                   'assertions': a['stats'].get('checks', 0),
                   'decisions': a['stats'].get('decisions', 0),
                   'queries': a['stats'].get('queries', 0),
                   'solver_s': round(a['stats'].get('solver_s', 0), 3),
                   'max_decisions_on_a_path': a['max_depth'],
                   'covered': sorted(a['covered']), 'notes': a['notes']})
    second = [{'harness': jobs[r.j][0].name, 'config': jobs[r.j][1],
               'paths': r.agg['paths'], 'all_paths': r.complete}
              for r in again]
    return {
        'property': prop, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'model_checking',
        'coverage': {
            'states': sum(a['paths'] for a in agg),
            'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': validated,
            'samples': samples or [{'none': 'no witness'}],
            'exhaustive': bool(complete),
            'functions_encoded': funcs,
            'queries': tot.get('queries', 0),
            'solver_s': round(tot.get('solver_s', 0), 3),
            'assertions_discharged': tot.get('checks', 0),
            'harnesses': hs,
            'after_another_run': {
                'paths': sum(r.agg['paths'] for r in again),
                'runs': second,
                'explanation': 'the harness once more, symbolically, after '
                               'a concrete run of it whose module and class '
                               'level state is kept; up to a number of '
                               'paths and seconds each, see all_paths',
            },
            'explanation':
                'states: feasible paths of the instrumented real code '
                '(equivalence classes of symbolic inputs); transitions: '
                'branch decisions settled by z3; traces_validated: path '
                'witnesses re-run on the unmodified package with equal '
                'observations',
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': 1 if confirmed else 0,
    }


ASSUMPTIONS = [
    'z3 answers are correct; CPython executes uninstrumented library code '
    'as it does in production',
    'names are parametric: code that inspects the characters of a name sees '
    'one generic representative besides every literal it is compared with '
    '(character-level properties use symbolic characters instead)',
    'symbolic characters range over ASCII plus 13 non-ASCII representatives',
    'PyYAML, pickle and argparse are treated as executed, not encoded',
]


def replay(path):
    with open(path) as f:
        d = json.load(f)
    for m in prop_modules(d['property']):
        __import__(m)
    h = [x for x in hapi.REG[d['property']] if x.name == d['harness']][0]
    r = native_replay([(h, d['config'], d['tape'], d.get('first'))])[0]
    print(json.dumps(r, indent=1))
    return 1 if r['status'] in ('violation', 'exception', 'timeout') else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--harness')
    ap.add_argument('--budget', type=int)
    ap.add_argument('-v', '--verbose', action='store_true')
    ap.add_argument('--replay')
    args = ap.parse_args()
    setup()
    if args.replay:
        return replay(args.replay)
    budget = args.budget or (800 if args.tier == 'quick' else 7200)
    return run_property(args.property, args.tier, args.jobs,
                        10 if args.verbose else False, args.harness, budget)


if __name__ == '__main__':
    sys.exit(main())
