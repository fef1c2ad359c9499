"""The step limit is a hard bound, whatever a call does and however its charges are interleaved."""
from hashlib import sha3_256
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, addr, info
from iconservice import sha3_256 as score_sha3_256

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01',
                        'removing an entry costs no more than zero per byte, replacing one no more than setting it']}

OPS = ['set', 'get', 'del', 'event', 'hash', 'call', 'in', 'balance']


def costs(ctx, schema):
    d = {'schema': schema}
    if schema == 0:
        for k in ('get', 'set', 'replace', 'eventLog', 'apiCall'):
            d[k] = ctx.int('cost.' + k, 0, 10 ** 6)
        d['delete'] = ctx.int('cost.delete', -10 ** 6, 0)
        ctx.assume(d['set'] >= d['replace'])
    else:
        for k in ('get', 'getBase', 'set', 'setBase', 'deleteBase', 'log', 'logBase', 'apiCall'):
            d[k] = ctx.int('cost.' + k, 0, 10 ** 6)
        d['delete'] = ctx.int('cost.delete', -10 ** 6, 0)
        ctx.assume(d['setBase'] >= d['deleteBase'])
    return d


@unit(cases=[dict(schema=s, a=a, b=b) for s in (0, 1) for a in ('set', 'del', 'event', 'call', 'in') for b in OPS],
      thorough_cases=[dict(schema=s, a=a, b=b, c=c) for s in (0, 1) for a in OPS for b in OPS
                      for c in ('set', 'del', 'call', 'hash')],
      covers=['ok', 'outofstep', 'caught', 'callee failed', 'callee cheats'],
      bounds='2 operations (3 in the thorough tier) of reading, writing, removing, membership, events, hashing and '
             'calls; any prices up to 10^6, any limit and any use reported by a callee up to 2^40; out of step caught '
             'by the SCORE or not')
def mixed(ctx, schema, a, b, c=None):
    c_ = costs(ctx, schema)
    limit = ctx.int('limit', 0, 2 ** 40)
    ops = [a, b] + ([c] if c else [])
    catch = ctx.flag('catch')
    passed = []
    peer = Peer(ctx)
    k0 = sha3_256(b'\x01\x83dic\x00').digest()
    k1 = sha3_256(b'\x01\x83dic\x01').digest()
    if ctx.flag('has0'):
        peer.store[k0] = b'x' * 40
    peer.store[k1] = b'y' * 25
    peer.store[sha3_256(b'\x00\x83arr').digest()] = b'\x01'
    peer.on_contains = lambda p, data: [True, 1, 17]
    sent = []

    def on_call(p, f, to, value, lim, method, params):
        used = ctx.int('callee.used', 0, 2 ** 40)
        passed.append([lim, used])
        if used > lim:
            ctx.cover('callee cheats')
        st = ctx.choice('callee.status', [0, 10])
        if st:
            ctx.cover('callee failed')
        return [st, used, None if st == 0 else 'no']
    peer.on_call = on_call

    def one(score, op, i):
        if op == 'set':
            score.dic[0] = bytes([65 + i]) * (7 + 20 * i)
        elif op == 'get':
            score.dic[1]
        elif op == 'del':
            score.dic.remove(0 if i != 1 else 1)
        elif op == 'event':
            score.Ev(i, b'abc')
        elif op == 'hash':
            score_sha3_256(b'q' * 100)
        elif op == 'in':
            b'zz' in score.arr
        elif op == 'balance':
            score.icx.get_balance(score.address)
        else:
            score.call(addr('cx', 9), 'm', {})
        sent.append(op)

    def script(score, _):
        for i, op in enumerate(ops):
            if catch:
                try:
                    one(score, op, i)
                except BaseException:
                    ctx.cover('caught')
            else:
                one(score, op, i)
        return 0
    scores.CTX[0] = script
    f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, limit, 'run', [],
                    info(ctx, c_))
    ctx.check(f.escaped is None and peer.errors == [] and f.result is not None, 'the request is answered')
    if f.result is None:
        return
    status, used, ret = f.result
    ctx.observe('res', [status, used])
    ctx.check(used <= limit, 'no more steps are reported than the limit')
    for lim, callee in passed:
        if not {'set', 'del'} & set(ops):            # nothing is refunded
            ctx.check(lim <= limit, 'no callee gets more than the limit')
    cheats = ctx.Or(*[callee > lim for lim, callee in passed]) if passed else False
    if status == 0:
        ctx.cover('ok')
        if not catch:
            ctx.check(ctx.Not(cheats), 'a call that used more than it was given does not succeed')
    elif status == 10 and not any(o == 'call' for o in ops):
        ctx.cover('outofstep')
        ctx.check(used == limit, 'out of step means all steps are gone')
    if not catch and not any(o == 'call' for o in ops):
        ctx.check(ctx.Or(status == 0, status == 10), 'success or out of step')


@unit(cases=[dict(schema=s, op=o) for s in (0, 1) for o in OPS if o not in ('balance',)], covers=['free', 'paid'],
      bounds='each operation once with any prices up to 10^6 and any limit: it takes effect only when its charge fits')
def affordable(ctx, schema, op):
    c = costs(ctx, schema)
    limit = ctx.int('limit', 0, 2 ** 40)
    peer = Peer(ctx)
    peer.store[sha3_256(b'\x01\x83dic\x01').digest()] = b'y' * 25
    peer.store[sha3_256(b'\x00\x83arr').digest()] = b'\x01'
    peer.on_contains = lambda p, data: [True, 1, 17]
    peer.on_call = lambda p, f, to, value, lim, method, params: [0, 0, None]
    out = []

    def script(score, _):
        if op == 'set':
            score.dic[0] = b'12345'
        elif op == 'get':
            out.append(score.dic[1])
        elif op == 'del':
            score.dic.remove(1)
        elif op == 'event':
            score.Ev(1, b'abc')
        elif op == 'hash':
            out.append(score_sha3_256(b'q' * 100))
        elif op == 'in':
            out.append(b'zz' in score.arr)
        else:
            score.call(addr('cx', 9), 'm', {})
        return 0
    scores.CTX[0] = script
    f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, limit, 'run', [],
                    info(ctx, c))
    ctx.check(f.result is not None, 'answered')
    if f.result is None:
        return
    base = (lambda k: c[k + 'Base']) if schema else (lambda k: 0)
    get = lambda n: base('get') + c['get'] * n
    price = {'set': base('set') + c['set'] * 5, 'get': get(25), 'del': base('delete') + c['delete'] * 25,
             'event': base('log') + (c['log'] if schema else c['eventLog']) * (len('Ev(int,bytes)') + 1 + 3),
             'hash': c['apiCall'] + c['apiCall'] * 4 // 10, 'in': get(1) + base('get') * 0 + get(17), 'call': 0}[op]
    status, used, ret = f.result
    if status == 0:
        ctx.cover('free' if op == 'call' else 'paid')
        ctx.check(ctx.And(used == price, price <= limit), 'a successful call used the price of what it did')
    else:
        ctx.cover('paid')
        ctx.check(ctx.And(status == 10, price > limit, used == limit), 'out of step only beyond the limit')
        ctx.check(f.events == [] and (op == 'in' or out == []), 'what cannot be paid for is not delivered')
