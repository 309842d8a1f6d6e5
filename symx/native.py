"""Replay of tapes against the unmodified package (ordinary interpreter).

usage: native.py REPO HARNESS_DIR < jobs.json > results.json
jobs: [{"module":..., "prop":..., "name":..., "config":..., "tape":...}]
"""

import importlib
import io
import json
import os
import sys
import traceback


def main():
    repo, hdir = sys.argv[1:3]
    sys.dont_write_bytecode = True
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[0:0] = [repo, hdir, os.path.dirname(here)]
    # the package must come from REPO even if an editable install says
    # otherwise
    sys.meta_path[:] = [m for m in sys.meta_path
                        if 'editable' not in getattr(m, '__module__', '')
                        and 'editable' not in str(getattr(m, '__name__', ''))]
    from symx import hapi
    import env
    jobs = json.load(sys.stdin)
    results = []
    for job in jobs:
        results.append(run(job, hapi, env))
    json.dump(results, out)
    out.flush()
    os._exit(0)


def purge():
    for n in [n for n in sys.modules
              if n == 'xylem' or n.startswith('xylem.')]:
        del sys.modules[n]


def run(job, hapi, env):
    importlib.import_module(job['module'])
    h = [x for x in hapi.REG[job['prop']] if x.name == job['name']][0]
    purge()
    place = None
    if job.get('first') is not None:
        place, _ = hapi.first_run(h, job['config'], job['first'], env,
                                  job.get('known', ()))
    S = hapi.NativeS(job['tape'], job.get('known', ()))
    env.reset(S, place)
    res = {'status': 'ok', 'msg': ''}
    so, se, cwd = sys.stdout, sys.stderr, os.getcwd()
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        h.fn(S, **job['config'])
    except hapi.Rejected:
        res['status'] = 'rejected'
    except hapi.KnownFinding as e:
        res.update(status='known', msg=str(e))
    except hapi.CheckFailed as e:
        res.update(status='violation', msg=str(e))
    except BaseException as e:
        res.update(status='exception', msg="%s: %s" % (type(e).__name__, e),
                   trace=traceback.format_exc())
    finally:
        sys.stdout, sys.stderr = so, se
        try:
            S.run_cleanups()
        finally:
            env.restore()
            os.chdir(cwd)
    if S.failures and res['status'] != 'violation':
        res.update(status='violation', msg=S.failures[0][0])
    res['logs'] = S.logs
    return res


if __name__ == '__main__':
    main()
