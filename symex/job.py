"""One (unit, case) exploration, run in its own forked process."""
import os
import sys
import time
import traceback

import z3

from . import core
from .api import UNITS, HarnessError
from .core import Engine, Control
from .symctx import SymCtx

MAX_VIOL = 12
MAX_PER_MSG = 3


def run_job(unit_name, case_idx, case, deadline, snap, witness=3, verbose=False):
    u = UNITS[unit_name]
    eng = Engine(deadline=deadline, branch_timeout=u.opts.get('branch_timeout', 20000),
                 check_timeout=u.opts.get('check_timeout', 60000),
                 enum_limit=u.opts.get('enum_limit', 600))
    core.set_engine(eng)
    res = {'unit': unit_name, 'case': case_idx, 'covers': set(), 'violations': [], 'inconclusive': [],
           'errors': [], 'checks': 0, 'witnesses': [], 'outcomes': {}, 'sample': None}
    t0 = time.time()
    state = {}

    def run():
        snap.restore()
        ctx = SymCtx()
        state['ctx'] = ctx
        u.fn(ctx, **case)

    def on_path(e, outcome, exc):
        ctx = state['ctx']
        res['outcomes'][outcome] = res['outcomes'].get(outcome, 0) + 1
        res['checks'] += ctx.checks
        res['inconclusive'] += ctx.inconclusive
        for msg, inputs in ctx.violations:
            if sum(1 for m, _ in res['violations'] if m == msg) < MAX_PER_MSG:
                res['violations'].append((msg, inputs))
        if outcome == 'ok':
            res['covers'] |= ctx.covered
            if len(res['witnesses']) < witness or (e.paths % 37 == 0 and len(res['witnesses']) < 3 * witness):
                try:
                    m = e.need_model()
                    res['witnesses'].append((ctx.extract(m), [[k, ctx.concrete(m, v)] for k, v in ctx.observed]))
                except Control:
                    pass
        elif outcome == 'error':
            tb = ''.join(traceback.format_exception(exc)[-6:])
            msg = 'uncaught %s' % type(exc).__name__
            if isinstance(exc, (z3.Z3Exception, MemoryError, HarnessError)):
                res['errors'].append(msg + '\n' + tb)
                e.mark_partial('engine error: %s' % msg)
            else:
                try:
                    m = e.need_model()
                    if sum(1 for mm, _ in res['violations'] if mm == msg) < MAX_PER_MSG:
                        res['violations'].append((msg, ctx.extract(m)))
                        res['errors'].append(msg + ': ' + str(exc)[:200] + '\n' + tb)
                except Control:
                    pass
        if verbose:
            sys.stderr.write('%s[%d] path %d %s %.1fs q=%d viol=%d\n' % (
                unit_name, case_idx, e.paths, outcome, time.time() - t0, e.queries, len(res['violations'])))
        return len(res['violations']) >= MAX_VIOL

    eng.explore(run, on_path)
    if core.TRACE:
        for k, n in sorted(core.FORKS.items(), key=lambda x: -x[1])[:25]:
            sys.stderr.write('FORK %6d %s\n' % (n, k))
    res.update(paths=eng.paths, branches=eng.branches, queries=eng.queries, solver_time=eng.solver_time,
               unknowns=eng.unknowns, partial=dict(eng.partial_reasons), functions=eng.functions,
               wall=time.time() - t0)
    return res
