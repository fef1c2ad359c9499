"""Every question gets its own answer, whatever replies are still on their way and whatever the peer does wrong."""
import itertools
from hashlib import sha3_256
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, addr, info

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01']}

K = [sha3_256(b'\x01\x83dic' + bytes([i])).digest() for i in range(6)]
ARR = sha3_256(b'\x00\x83arr').digest()
COSTS = {'schema': 0, 'set': 3, 'replace': 2, 'delete': -1, 'get': 1, 'eventLog': 1}
OPS = ['set', 'put', 'del', 'get', 'balance', 'in', 'call', 'reenter', 'event', 'missing']


class Script:
    """performs operations, remembers what it was told and what it should have been told"""

    def __init__(self, ctx, peer):
        self.ctx, self.peer = ctx, peer
        self.n = 0
        self.told = []
        self.model = {}
        self.level = 0

    def fresh(self, what):
        self.n += 1
        return '%s%d' % (what, self.n)

    def op(self, score, op):
        ctx = self.ctx
        if op in ('set', 'put'):
            k = 3 if op == 'set' else 0
            v = ctx.bytes(self.fresh('v'), 2)
            score.dic[k] = v
            self.model[k] = v
        elif op == 'del':
            score.dic.remove(0)
            self.model[0] = None
        elif op in ('get', 'missing'):
            k = 0 if op == 'get' else 3
            self.told.append((score.dic[k], self.model.get(k)))
        elif op == 'balance':
            self.want = ctx.int(self.fresh('balance'), 0, 1 << 128)
            self.told.append((score.icx.get_balance(addr('hx', 7)), self.want))
        elif op == 'in':
            self.found = ctx.flag(self.fresh('found'))
            got = b'zz' in score.arr
            self.told.append((got, self.found))
        elif op == 'call':
            r = score.call(addr('cx', 8), 'other', {})
            self.told.append((r, self.want))
        elif op == 'reenter':
            r = score.call(addr('cx', 1), 'run', {})
            self.told.append((r, self.inner))
        else:
            score.Ev(1, b'x')


def start(ctx, ops):
    peer = Peer(ctx)
    s = Script(ctx, peer)
    s.model[0] = ctx.bytes('v0', 2)
    peer.store[K[0]] = s.model[0]
    peer.store[ARR] = b'\x01'
    peer.balance = lambda a: s.want
    peer.on_contains = lambda p, d: [s.found, 0, 0]
    code = sim.package(scores.Scripted)

    def on_call(p, f, to, value, lim, m, params):
        if m == 'other':
            s.want = ctx.int(s.fresh('ret'), 0, 1 << 128)
            return [0, 0, s.want]

        def then(p2, g):
            p2.reply_call([g.result[0], g.result[1], g.result[2]])
        p.queue_invoke(code, False, raw_addr('cx', 1), raw_addr('cx', 1), 0, lim, 'run', [], info(ctx, COSTS), then=then)
    peer.on_call = on_call

    def script(score, name):
        if s.level:
            # the inner request leaves a write behind and reads another entry
            s.op(score, 'get')
            s.op(score, 'put')
            s.op(score, 'set')
            s.inner = ctx.int(s.fresh('inner'), 0, 1 << 64)
            return s.inner
        s.level = 1
        for o in ops:
            s.op(score, o)
        return 77
    scores.CTX[0] = script
    f = peer.invoke(code, False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 6, 'run', [], info(ctx, COSTS))
    return peer, s, f


@unit(cases=[dict(ops=list(o)) for o in itertools.product(['set', 'put', 'del'], OPS, ['get', 'balance', 'in', 'call', 'reenter'])]
      + [dict(ops=['put'] * n + [o, 'get']) for n in (4, 5, 6, 7) for o in ('balance', 'in', 'call', 'reenter', 'get', 'event')],
      thorough_cases=[dict(ops=list(o)) for o in itertools.product(['set', 'del'], OPS, OPS, ['get', 'in', 'call', 'reenter'])],
      covers=['told', 'reentered'],
      bounds='every sequence of three of ten operations that starts with a write (four in the thorough tier), and up to '
             'seven pending writes; two byte values, 128 bit balances and results, all symbolic; a reentrant call that writes')
def pairing(ctx, ops):
    peer, s, f = start(ctx, ops)
    ctx.check(f.escaped is None and peer.errors == [] and f.result is not None, 'the request is answered')
    if f.result is None:
        return
    ctx.check(f.result[0] == 0 and ctx.eq(f.result[2], 77), 'with its own result')
    ctx.check(len(s.told) >= 1, 'questions were asked')
    for i, (got, want) in enumerate(s.told):
        ctx.check(ctx.eq(got, want), 'each answer is the one to its question')
        ctx.cover('told')
    ctx.check(peer.out == [], 'no reply is left over')
    for k, v in s.model.items():
        ctx.check(ctx.eq(peer.store.get(K[k]), v), 'and the state is the one that was written')
    if 'reenter' in ops:
        ctx.cover('reentered')


@unit(cases=[dict(q=q, pending=n, catch=c) for q in ('get', 'balance', 'in') for n in (0, 1, 2) for c in (False, True)],
      covers=['wrong', 'usable'],
      bounds='each kind of question answered by a message of any other type from 0 to 20, after up to two writes, caught '
             'by the contract or not')
def wrong_answer(ctx, q, pending, catch):
    peer = Peer(ctx)
    peer.store[K[0]] = b'true'
    peer.store[ARR] = b'\x01'
    right = {'get': sim.GETVALUE, 'balance': sim.GETBALANCE, 'in': sim.CONTAINS}[q]
    typ = ctx.choice('type', [t for t in range(21) if t != right])
    told, after = [], []
    real = peer.feed
    state = [0]

    def feed(m):
        if m[0] == right and state[0] and state[0] < 2:
            state[0] = 2
            peer.log.append((m[0], m[1]))
            peer.send(typ, {'get': [True, b'wrong'], 'balance': b'\x05', 'in': [True, 0, 0]}[q])
            return
        real(m)
    peer.feed = feed
    peer.on_contains = lambda p, d: [True, 0, 0]
    peer.balance = lambda a: 123

    def ask(score):
        if q == 'get':
            return score.dic[0]
        if q == 'balance':
            return score.icx.get_balance(addr('hx', 7))
        return b'zz' in score.arr

    def script(score, _):
        for i in range(pending):
            score.dic[1 + i] = b'p'
        if q == 'in':
            len(score.arr)
        state[0] = 1
        if catch:
            try:
                told.append(ask(score))
            except BaseException:
                pass
            after.append(ask(score))
        else:
            told.append(ask(score))
        return 1
    scores.CTX[0] = script
    f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 6, 'run', [],
                    info(ctx, COSTS))
    ctx.check(f.escaped is None and peer.errors == [] and f.result is not None, 'the request is answered')
    if f.result is None:
        return
    ctx.check(told == [], 'a wrong message is no answer')
    ctx.cover('wrong')
    if catch:
        ctx.check(f.result[0] == 0 and after == [{'get': b'true', 'balance': 123, 'in': True}[q]],
                  'and the next question has its own')
        ctx.cover('usable')
    else:
        ctx.check(f.result[0] != 0, 'the request fails')
        state[0] = 0
        scores.CTX[0] = lambda score, _: 2
        g = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 6, 'run', [],
                        info(ctx, COSTS))
        ctx.check(g.result is not None and g.result[0] == 0, 'and the next one is served')


@unit(cases=[dict(op=o, pending=n) for o in ('get', 'balance', 'in', 'call', 'end') for n in (0, 1)], covers=['ended'],
      bounds='the connection breaks at each kind of question or at the end, with up to one pending write; a contract that '
             'catches everything and tries up to three times')
def broken_connection(ctx, op, pending):
    peer = Peer(ctx)
    peer.store[K[0]] = b'true'
    peer.store[ARR] = b'\x01'
    peer.on_contains = lambda p, d: [True, 0, 0]
    peer.on_call = lambda *a: [0, 0, 1]
    told, broken = [], [False]
    catch = ctx.flag('catch')
    side = ctx.choice('side', ['both', 'receiving'])
    real_take, real_feed = peer.take, peer.feed

    def take():
        if broken[0]:
            raise ConnectionResetError('reset')
        return real_take()

    def feed(m):
        if broken[0] and side == 'both':
            raise BrokenPipeError('broken')
        real_feed(m)
    peer.take, peer.feed = take, feed

    def ask(score):
        if op == 'get':
            return score.dic[0]
        if op == 'balance':
            return score.icx.get_balance(addr('hx', 7))
        if op == 'in':
            return b'zz' in score.arr
        return score.call(addr('cx', 8), 'x', {})

    def script(score, _):
        for i in range(pending):
            score.dic[1 + i] = b'p'
        broken[0] = True
        if op == 'end':
            return 1
        for i in range(3):
            try:
                told.append(ask(score))
            except BaseException:
                if not catch:
                    raise
        return 1
    scores.CTX[0] = script
    f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 6, 'run', [],
                    info(ctx, COSTS))
    ctx.check(told == [], 'nothing is told without an answer')
    ctx.check(f.escaped is not None and f.escaped != 'deadlock', 'the executor ends')
    ctx.cover('ended')
    if f.result is not None and not catch and op != 'end':
        ctx.check(f.result[0] != 0, 'and reports no success')
