"""Concrete replay of harness inputs against the unmodified code under test.

  python -m symex.replay FILE           one replay file as written by a check (exit 1 = reproduced)
  python -m symex.replay --serve        reads jobs (JSON list) on stdin, prints results as JSON
"""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symex import env                                    # noqa: E402
env.setup_concrete()
from symex.api import UNITS                              # noqa: E402
from symex.concctx import ConcCtx, AssumptionFailed      # noqa: E402


def case_of(u, idx, tier):
    cases = list(u.cases)
    if tier == 'thorough' and u.thorough_cases:
        cases += u.thorough_cases
    return cases[idx]


def run_one(job):
    u = UNITS[job['unit']]
    case = case_of(u, job['case'], job['tier'])
    ctx = ConcCtx(job['inputs'])
    out = {'failures': [], 'assume': False, 'error': None}
    try:
        u.fn(ctx, **case)
    except AssumptionFailed:
        out['assume'] = True
    except BaseException as e:                            # noqa
        ctx.failures.append('uncaught %s' % type(e).__name__)
        out['error'] = ''.join(traceback.format_exception(e)[-6:])
    out['failures'] = ctx.failures
    try:
        out['observed'] = [[k, ConcCtx.plain(v)] for k, v in ctx.observed]
    except Exception:
        out['observed'] = []
    return out


def forked(job, timeout=60):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        import signal
        signal.alarm(timeout)
        try:
            res = json.dumps(run_one(job)).encode()
        except BaseException as e:                       # noqa
            res = json.dumps({'failures': [], 'assume': False, 'error': 'replayer: %r' % e, 'observed': []}).encode()
        with os.fdopen(w, 'wb') as f:
            f.write(res)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return {'failures': ['no answer (crash or hang)'], 'assume': False, 'error': 'crash/hang', 'observed': []}
    return json.loads(data)


def main():
    if sys.argv[1] == '--serve':
        out = os.fdopen(os.dup(1), 'w')
        os.dup2(2, 1)
        sys.stdout = sys.stderr
        jobs = json.load(sys.stdin)
        importlib.import_module('harness.' + jobs['module'])
        json.dump([forked(j) for j in jobs['jobs']], out)
        out.close()
        return 0
    job = json.load(open(sys.argv[1]))
    importlib.import_module('harness.' + job['module'])
    res = run_one(job)
    for f in res['failures']:
        print('FAILED: ' + f)
    if res['error']:
        print(res['error'])
    return 1 if res['failures'] else 0


if __name__ == '__main__':
    sys.exit(main())
