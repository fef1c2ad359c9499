"""Decide one property:  python -m symex.run C01 [--tier quick|thorough] [--unit U] [--case N] [-v]"""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symex import env                                    # noqa: E402
env.setup_symbolic()
from symex.api import UNITS                              # noqa: E402
from symex import job as J                               # noqa: E402

TIME = {'quick': 420, 'thorough': 840}


def child(conn, args):
    os.dup2(2, 1)
    try:
        r = J.run_job(*args)
    except BaseException as e:                            # noqa
        import traceback
        r = {'crash': repr(e), 'tb': traceback.format_exc()}
    conn.send(r)
    conn.close()
    os._exit(0)


def run_jobs(jobs, deadline, snap, workers, verbose):
    ctx = mp.get_context('fork')
    pending = list(jobs)
    running = {}
    out = []
    while pending or running:
        while pending and len(running) < workers:
            jb = pending.pop(0)
            a, b = ctx.Pipe(False)
            # a queued job gets a fair share of what is left
            left = max(deadline - time.time(), 5)
            share = left if len(pending) < workers else left * workers / (len(pending) + workers) * 3
            p = ctx.Process(target=child, args=(b, (jb[0], jb[1], jb[2], time.time() + min(left, share), snap,
                                                    jb[3], verbose)))
            p.start()
            b.close()
            running[a] = (p, jb, time.time())
        ready = mp.connection.wait(list(running), timeout=1)
        for a in ready:
            p, jb, t = running.pop(a)
            try:
                out.append((jb, a.recv()))
            except EOFError:
                out.append((jb, {'crash': 'worker died'}))
            a.close()
            p.join()
        for a in list(running):
            p, jb, t = running[a]
            if time.time() > deadline + 60:
                p.kill()
                p.join()
                running.pop(a)
                out.append((jb, {'crash': 'worker killed at the deadline'}))
    return out


def replay_all(module, jobs):
    if not jobs:
        return []
    envv = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    p = subprocess.run([sys.executable, '-m', 'symex.replay', '--serve'], cwd=env.VERIF, env=envv,
                       input=json.dumps({'module': module, 'jobs': jobs}).encode(), stdout=subprocess.PIPE,
                       stderr=None if os.environ.get("SX_ERR") else subprocess.DEVNULL, timeout=600)
    return json.loads(p.stdout)


def load_known(prop):
    path = os.path.join(env.VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))['findings'] if k['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit')
    ap.add_argument('--case', type=int)
    ap.add_argument('--time', type=int)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4)))
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    module = prop.lower()
    deadline = t0 + (a.time or TIME[tier])
    importlib.import_module('harness.' + module)
    snap = env.Snapshot()
    sys.stdout.flush()

    units = [u for u in UNITS.values() if (tier == 'thorough' or u.tier == 'quick') and u.fn.__module__ == 'harness.' + module and (not a.unit or u.name == a.unit)]
    jobs = []
    for u in units:
        cases = list(u.cases)
        if tier == 'thorough' and u.thorough_cases:
            cases += u.thorough_cases
        for i, c in enumerate(cases):
            if a.case is None or a.case == i:
                jobs.append((u.name, i, c, u.opts.get('witness', 2 if len(cases) > 20 else 4)))
    results = run_jobs(jobs, deadline, snap, a.j, a.v)

    # ---------------------------------------------------------------- gather
    tot = dict(paths=0, branches=0, queries=0, checks=0, unknowns=0)
    solver_time = 0.0
    partial, inconclusive, crashes, functions, errors = {}, [], [], set(), []
    covers = {}
    viol, wit = [], []
    outcomes = {}
    per_unit = {}
    for jb, r in results:
        if 'crash' in r:
            crashes.append('%s[%d]: %s' % (jb[0], jb[1], r['crash']))
            if a.v:
                print(r.get('tb', ''))
            continue
        for k in tot:
            tot[k] += r[k]
        solver_time += r['solver_time']
        functions |= r['functions']
        covers.setdefault(jb[0], set()).update(r['covers'])
        errors += r['errors']
        for k, v in r['partial'].items():
            partial['%s: %s' % (jb[0], k)] = v
        inconclusive += ['%s: %s' % (jb[0], m) for m in r['inconclusive']]
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        pu = per_unit.setdefault(jb[0], dict(cases=0, paths=0, checks=0, wall=0.0))
        pu['cases'] += 1
        pu['paths'] += r['paths']
        pu['checks'] += r['checks']
        pu['wall'] = round(pu['wall'] + r['wall'], 2)
        mk = lambda inputs: dict(property=prop, module=module, unit=jb[0], case=jb[1], tier=tier,
                                 args=repr(jb[2]), inputs=inputs)
        for msg, inputs in r['violations']:
            viol.append((msg, mk(inputs)))
        for inputs, obs in r['witnesses']:
            wit.append((obs, mk(inputs)))
    if a.v:
        for e in errors[:20]:
            print(e)

    # ---------------------------------------------------------------- replay
    wit = wit[:4000]
    if 'gosym.api' in sys.modules:
        sys.modules['gosym.api'].finish()
    rres = replay_all(module, [j for _, j in viol] + [j for _, j in wit])
    vres, wres = rres[:len(viol)], rres[len(viol):]
    confirmed, spurious = [], []
    for (msg, jb), r in zip(viol, vres):
        if r['failures']:
            confirmed.append((r['failures'][0], jb, r))
        else:
            spurious.append((msg, jb, r))
    validated, mismatches = 0, []
    for (obs, jb), r in zip(wit, wres):
        if r['failures']:
            confirmed.append((r['failures'][0], jb, r))
            continue
        if r['assume'] or r['error']:
            mismatches.append((jb, 'assumption/err %s' % r['error']))
            continue
        exp = json.loads(json.dumps(obs))
        if len(exp) != len(r['observed']) or any(not same(x, y) for x, y in zip(exp, r['observed'])):
            mismatches.append((jb, 'expected %s got %s' % (exp, r['observed'])))
        else:
            validated += 1

    # ---------------------------------------------------------------- verdict
    known = load_known(prop)
    rdir = os.path.join(env.VERIF, 'replays', prop)
    if not a.unit:
        shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    lines, known_hit, seen = [], {}, set()
    for msg, jb, r in confirmed:
        k = next((k for k in known if k.get('status') == 'open' and k['unit'] == jb['unit']
                  and re.fullmatch(k['message'], msg)
                  and re.search(k.get('args', ''), jb['args'])), None)
        if k is not None:
            known_hit[k['id']] = k
            continue
        key = (jb['unit'], msg)
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(rdir, '%s-%d.json' % (jb['unit'], len(lines)))
        json.dump(dict(jb, message=msg, error=r['error']), open(path, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('# %s[%d] %s: %s' % (jb['unit'], jb['case'], jb['args'], msg))
        print('#   inputs: %s' % json.dumps(jb['inputs'])[:600])
    for k in known:
        if k.get('status') == 'open':
            if k['id'] in known_hit or True:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    missing = []
    for u in units:
        for c in u.covers:
            if c not in covers.get(u.name, set()):
                missing.append('%s: %s' % (u.name, c))
    exhaustive = not (partial or inconclusive or crashes or spurious or mismatches or missing or tot['unknowns'])
    notes = []
    for n, xs in (('partial', ['%s x%d' % kv for kv in partial.items()]), ('inconclusive', inconclusive),
                  ('crash', crashes),
                  ('spurious counterexample', ['%s[%d] %s: %s  %s' % (j['unit'], j['case'], j['args'], m,
                                               json.dumps(j['inputs'])[:300]) for m, j, _ in spurious]),
                  ('witness mismatch', ['%s[%d] %s: %s' % (j['unit'], j['case'], json.dumps(j['inputs'])[:200], m)
                                        for j, m in mismatches]),
                  ('not reached', missing)):
        for x in xs[:12]:
            notes.append('%s: %s' % (n, x))
    for n in notes:
        print('INCONCLUSIVE: ' + n)
    wall = time.time() - t0
    meta = getattr(sys.modules['harness.' + module], 'META', {})
    evid = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['branches'],
            'traces_validated_against_impl': validated,
            'samples': [dict(unit=j['unit'], case=j['args'], inputs=j['inputs'], observed=o) for o, j in wit[:6]],
            'states_are': 'symbolic paths of the real code explored to their end',
            'transitions_are': 'solver-decided branch points of the real code',
            'path_outcomes': outcomes, 'obligations_checked_on_paths': tot['checks'],
            'solver_queries': tot['queries'], 'solver_seconds': round(solver_time, 2),
            'solver': 'z3 ' + __import__('z3').get_version_string(), 'solver_unknowns': tot['unknowns'],
            'functions_encoded': sorted(f for f in functions if f.split('.')[0] in ('pyexec', 'iconservice') or f.startswith('go:')),
            'units': per_unit, 'bounds': {u.name: u.bounds for u in units if u.bounds},
            'exhaustive': bool(exhaustive), 'notes': notes,
        },
        'assumptions': meta.get('assumptions', []),
        'violations': len(lines), 'wall_s': round(wall, 2),
    }
    if not a.unit:
        os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
        json.dump(evid, open(os.path.join(env.VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: units=%d cases=%d paths=%d branches=%d obligations=%d queries=%d solver=%.1fs validated=%d/%d '
          'exhaustive=%s wall=%.1fs' % (prop, tier, len(units), len(jobs), tot['paths'], tot['branches'],
                                        tot['checks'], tot['queries'], solver_time, validated, len(wit),
                                        exhaustive, wall))
    if a.v or a.unit:
        for n, pu in per_unit.items():
            print('   ', n, pu)
    if lines:
        for ln in lines[:20]:
            print(ln)
        return 1
    if tot['paths'] == 0 or (missing and not (partial or inconclusive or crashes)):
        return 2
    return 0


def same(x, y):
    if x == ['~'] or y == ['~']:
        return True
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    return type(x) is type(y) and x == y


if __name__ == '__main__':
    sys.exit(main())
