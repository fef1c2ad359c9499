"""Calls between contracts share one step budget exactly."""
from hashlib import sha3_256
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, addr, info

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01',
                        'the peer follows the message protocol']}

VIAS = ['call', 'interface', 'transfer', 'send']


def call(score, via):
    if via == 'call':
        return score.call(addr('cx', 9), 'm', {})
    if via == 'interface':
        return score.create_interface_score(addr('cx', 9), scores.Callee).bar()
    if via == 'transfer':
        return score.icx.transfer(addr('hx', 9), 4)
    return score.icx.send(addr('hx', 9), 4)


BEFORE = ['', 'S', 'D', 'G', 'SD', 'DD', 'SG', 'E', 'DS']


@unit(cases=[dict(via=v, before=b, calls=n) for v in VIAS for b in BEFORE for n in (1, 2)
             if n == 1 or b in ('', 'D')],
      thorough_cases=[dict(via=v, before=b, calls=n) for v in VIAS for b in BEFORE + ['DSD', 'SDE', 'DDD', 'SSD']
                      for n in (2, 3)],
      covers=['ok', 'callee failed', 'too much', 'outofstep'],
      bounds='up to 3 storage operations and an event, then up to 2 calls (3 in the thorough tier) and another write; any '
             'prices up to 10^6, any limit, any steps and success or failure reported by each callee, caught or not')
def budget(ctx, via, before, calls):
    c = {'schema': 0, 'get': ctx.int('get', 0, 10 ** 6), 'set': ctx.int('set', 0, 10 ** 6),
         'replace': ctx.int('replace', 0, 10 ** 6), 'delete': ctx.int('delete', -10 ** 6, 10 ** 6),
         'eventLog': ctx.int('event', 0, 10 ** 6)}
    ctx.assume(c['set'] >= c['replace'])
    limit = ctx.int('limit', 0, 1 << 40)
    peer = Peer(ctx)
    k = [sha3_256(b'\x01\x83dic' + bytes([i])).digest() for i in range(5)]
    for i in range(3):
        peer.store[k[i]] = b'v' * (i + 3)
    seen, spent = [], [0]
    done = []
    catch = ctx.flag('catch')
    if catch or via == 'send':
        ctx.assume(c['delete'] <= 0)            # otherwise the late charges may end the call, not the callee

    def on_call(p, f, to, value, lim, method, params):
        i = len(seen)
        used = ctx.int('used%d' % i, 0, 1 << 40)
        ok = ctx.flag('ok%d' % i)
        seen.append([lim, used, ok, spent[0]])
        if used <= lim:
            spent[0] = spent[0] + used
        else:
            ctx.cover('too much')
            spent[0] = spent[0] + lim
        if not ok:
            ctx.cover('callee failed')
        return [0 if ok else 33, used, b'r' if ok else 'no']
    peer.on_call = on_call

    def script(score, _):
        for i, o in enumerate(before):
            if o == 'S':
                score.dic[i] = b'12345678'
                price = c['replace'] * 8
            elif o == 'D':
                score.dic.remove(i)
                price = c['delete'] * (i + 3)
            elif o == 'G':
                score.dic[i]
                price = c['get'] * (i + 3)
            else:
                score.Ev(1, b'abc')
                price = c['eventLog'] * 17
            spent[0] = spent[0] + price
        done.append('before')
        for i in range(calls):
            if catch:
                try:
                    done.append(call(score, via))
                except BaseException:
                    done.append('failed')
            else:
                done.append(call(score, via))
        score.dic[4] = b'xy'
        spent[0] = spent[0] + c['set'] * 2
        return 0
    scores.CTX[0] = script
    f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, limit, 'run', [],
                    info(ctx, c))
    ctx.check(f.escaped is None and peer.errors == [] and f.result is not None, 'the request is answered')
    if f.result is None:
        return
    status, used, ret = f.result
    ctx.check(used <= limit, 'within the limit')
    for lim, u, ok, at in seen:
        ctx.check(lim == limit - at, 'a callee gets what is left, with every earlier charge settled')
        ctx.check(lim >= 0, 'which is never negative')
    if status == 0:
        ctx.cover('ok')
        ctx.check(used == spent[0], 'the caller pays its own charges and those of its callees')
        if not catch and via != 'send':
            for lim, u, ok, at in seen:
                ctx.check(ctx.And(ok, u <= lim), 'and no failure of a callee is ignored')
        for (lim, u, ok, at), r in zip(seen, done[1:]):
            good = ctx.And(ok, u <= lim)
            if via == 'send':
                ctx.check(good if r else ctx.Not(good), 'the outcome of a call is reported')
            elif catch:
                ctx.check(ctx.Not(good) if r == 'failed' else good, 'the outcome of a call is reported')
    elif status == 10:
        ctx.cover('outofstep')
        ctx.check(used == limit, 'out of step means all steps are gone')
    else:
        ctx.check(not catch and via != 'send' and len(seen) > 0, 'other failures come from a callee')
        if seen:
            lim, u, ok, at = seen[-1]
            ctx.check(ctx.Or(ctx.And(status == 33, not ok, u <= lim, used == at + u), ctx.And(status == 1, u > lim, used == limit)),
                      'with the status of the callee and the steps it used, or all steps for one that claims too much')


@unit(cases=[dict(depth=d) for d in (1, 2)], covers=['ok', 'outofstep'],
      bounds='contracts calling each other up to 2 levels deep through one executor, each writing before and after its '
             'call; any limit, prices fixed')
def levels(ctx, depth):
    limit = ctx.int('limit', 0, 3000)
    c = {'schema': 0, 'set': 10, 'replace': 4, 'delete': -2, 'get': 1}
    code = sim.package(scores.Scripted)
    peer = Peer(ctx)
    level = [0]
    limits = []

    def on_call(p, f, to, value, lim, m, params):
        limits.append(lim)

        def then(p2, g):
            p2.reply_call([g.result[0], g.result[1], g.result[2]])
        p.queue_invoke(code, False, raw_addr('cx', 1), raw_addr('cx', 9), 0, lim, 'run', [], info(ctx, c), then=then)
    peer.on_call = on_call

    def script(score, name):
        n = level[0]
        level[0] += 1
        score.dic[n] = b'w' * (n + 1)
        if n < depth:
            score.call(addr('cx', 9), 'run', {})
        score.dic[n] = b'v' * (n + 2)
        return n
    scores.CTX[0] = script
    f = peer.invoke(code, False, raw_addr('hx', 2), raw_addr('cx', 1), 0, limit, 'run', [], info(ctx, c))
    ctx.check(f.escaped is None and peer.errors == [] and f.result is not None, 'the request is answered')
    if f.result is None:
        return
    cost = [10 * (n + 1) + 4 * (n + 2) for n in range(depth + 1)]
    total = sum(cost)
    ctx.check(f.result[1] <= limit, 'within the limit')
    at = 0
    for i, lim in enumerate(limits):
        at += 10 * (i + 1)
        ctx.check(lim == limit - at, 'a callee gets what is left')
    if f.result[0] == 0:
        ctx.cover('ok')
        ctx.check(ctx.And(f.result[1] == total, total <= limit), 'the sum of all levels is paid')
        for n, g in enumerate(reversed(peer.done)):
            ctx.check(g.result[1] == sum(cost[n:]), 'at every level')
    else:
        ctx.cover('outofstep')
        ctx.check(ctx.And(f.result[0] == 10, f.result[1] == limit), 'out of step')
