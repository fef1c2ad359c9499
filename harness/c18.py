"""The proportion of fees a contract pays is what it set last, between 0 and 100, and never comes from a query."""
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, addr, info

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01']}


def serve(ctx, script, query=False, method='run'):
    scores.CTX[0] = script
    peer = Peer(ctx)
    f = peer.invoke(sim.package(scores.Scripted), query, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 6, method, [],
                    info(ctx, {}))
    ctx.check(f.escaped is None and peer.errors == [] and f.result is not None, 'the request is answered')
    return peer, f


@unit(cases=[dict(n=n, catch=c) for n in (1, 2, 3) for c in (False, True)], covers=['set', 'refused', 'nothing'],
      bounds='up to three settings of any integer of 128 bits in one request; refusals caught by the contract or not')
def settings(ctx, n, catch):
    vals = [ctx.int('p%d' % i, -(1 << 127), 1 << 127) for i in range(n)]
    seen, refused = [], []

    def script(score, _):
        for v in vals:
            if catch:
                try:
                    score.set_fee_sharing_proportion(v)
                except BaseException as e:
                    refused.append(e.code)
            else:
                score.set_fee_sharing_proportion(v)
            seen.append(score.get_fee_sharing_proportion())
        return 1
    peer, f = serve(ctx, script)
    if f.result is None:
        return
    ok = [ctx.And(v >= 0, v <= 100) for v in vals]
    want = 0
    bad = 0
    for v, good in zip(vals, ok):
        if good:
            want = v
        else:
            bad += 1
            if not catch:
                break
    if bad and not catch:
        ctx.cover('refused')
        ctx.check(f.result[0] == 5, 'a proportion out of range fails the request')
        for p in f.fees:
            ctx.check(ctx.And(p >= 0, p <= 100), 'and is not sent')
        return
    ctx.check(f.result[0] == 0, 'the request succeeds')
    ctx.check(refused == [5] * bad, 'each one out of range is refused')
    ctx.check(ctx.eq(seen[-1], want), 'the contract reads what it set')
    if want > 0:
        ctx.check(len(f.fees) == 1 and ctx.eq(f.fees[0], want), 'the last one in range is sent once')
        ctx.cover('set')
    else:
        ctx.check(all(ctx.eq(p, 0) is True for p in f.fees), 'zero is the default')
        ctx.cover('nothing')


@unit(cases=[dict(method=m) for m in ('run', 'view')], covers=['refused'],
      bounds='any integer of 128 bits in a query, caught by the contract or not')
def query(ctx, method):
    v = ctx.int('p', -(1 << 127), 1 << 127)
    catch = ctx.flag('catch')

    def script(score, _):
        try:
            score.set_fee_sharing_proportion(v)
        except BaseException:
            if not catch:
                raise
        return 1
    peer, f = serve(ctx, script, True, method)
    if f.result is None:
        return
    ctx.check(f.fees == [], 'a query sends no proportion')
    ctx.check(f.result[0] == (0 if catch else 5), 'setting one is refused')
    ctx.cover('refused')


@unit(cases=[dict()], covers=['refused'], bounds='eleven values that are not integers in range')
def other_values(ctx):
    name, v = ctx.choice('v', [(repr(v), v) for v in (None, '5', b'5', 0.5, 99.5, -0.5, 100.5, [5], (), {}, float('nan'))])
    peer, f = serve(ctx, lambda score, _: score.set_fee_sharing_proportion(v))
    if f.result is None:
        return
    ctx.check(f.fees == [], 'what is no integer is not sent')
    if name != 'nan':
        ctx.check(f.result[0] != 0, 'the request fails')
    ctx.cover('refused')


@unit(cases=[dict(inner=i, outer=o) for i in (False, True) for o in ('before', 'after', 'none')], covers=['own', 'none'],
      bounds='two contracts calling each other through one executor, each setting any proportion from 0 to 100 or none; a '
             'following request that sets none')
def frames(ctx, inner, outer):
    """a proportion belongs to the request that set it"""
    peer = Peer(ctx)
    code = sim.package(scores.Scripted)
    a, b = ctx.int('a', 0, 100), ctx.int('b', 0, 100)
    level = [0]
    inner_frame = []

    def on_call(p, f, to, value, lim, m, params):
        def then(p2, g):
            inner_frame.append(g)
            p2.reply_call([g.result[0], g.result[1], g.result[2]])
        p.queue_invoke(code, False, raw_addr('cx', 1), raw_addr('cx', 9), 0, lim, 'run', [], info(ctx, {}), then=then)
    peer.on_call = on_call
    read = []

    def script(score, _):
        level[0] += 1
        if level[0] == 1:
            if outer == 'before':
                score.set_fee_sharing_proportion(a)
            score.call(addr('cx', 9), 'run', {})
            read.append(score.get_fee_sharing_proportion())
            if outer == 'after':
                score.set_fee_sharing_proportion(a)
        elif level[0] == 2:
            read.append(score.get_fee_sharing_proportion())
            if inner:
                score.set_fee_sharing_proportion(b)
        return 1
    scores.CTX[0] = script
    f = peer.invoke(code, False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 6, 'run', [], info(ctx, {}))
    g = peer.invoke(code, False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 6, 'run', [], info(ctx, {}))
    ctx.check(f.result is not None and g.result is not None and peer.errors == [] and len(inner_frame) == 1, 'answered')
    if f.result is None or g.result is None or not inner_frame:
        return
    ctx.check(ctx.eq(read[0], 0), 'a new request starts with none')
    ctx.check(ctx.eq(read[1], a if outer == 'before' else 0), 'and keeps its own during calls')
    for fr, want in ((f, a if outer != 'none' else 0), (inner_frame[0], b if inner else 0), (g, 0)):
        sent = fr.fees[0] if fr.fees else 0
        ctx.check(len(fr.fees) <= 1 and ctx.eq(sent, want), 'each request sends its own proportion')
        ctx.cover('own' if fr.fees else 'none')
