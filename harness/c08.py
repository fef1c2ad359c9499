"""Read-only execution never changes state."""
from hashlib import sha3_256
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, addr, info
from iconservice import VarDB, DictDB, ArrayDB, IconScoreException

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01',
                        'the peer marks the requests below a query or a read-only call as read-only']}

WRITES = ['var.set', 'var.remove', 'dict.set', 'dict.remove', 'dict.del', 'array.put', 'array.pop', 'array.set', 'nested',
          'sub', 'event', 'event0', 'transfer', 'send', 'call', 'fee']
ACCESS_DENIED, ILLEGAL_FORMAT = 9, 5


def write(ctx, score, w, v):
    if w == 'var.set':
        score.var.set(v)
    elif w == 'var.remove':
        score.var.remove()
    elif w == 'dict.set':
        score.dic[v] = v
    elif w == 'dict.remove':
        score.dic.remove(v)
    elif w == 'dict.del':
        del score.dic[v]
    elif w == 'array.put':
        score.arr.put(v)
    elif w == 'array.pop':
        score.arr.pop()
    elif w == 'array.set':
        score.arr[0] = v
    elif w == 'nested':
        DictDB('n', score.database, value_type=bytes, depth=2)[v][v] = v
    elif w == 'sub':
        VarDB('s', score.database.get_sub_db(v), value_type=bytes).set(v)
    elif w == 'event':
        score.Ev(1, v)
    elif w == 'event0':
        score.Ev0()
    elif w == 'transfer':
        score.icx.transfer(addr('hx', 9), 5)
    elif w == 'send':
        score.icx.send(addr('hx', 9), 5)
    elif w == 'fee':
        score.set_fee_sharing_proportion(50)
    else:
        score.call(addr('cx', 9), 'm', {})


def seed(peer):
    peer.store[sha3_256(b'\x00\x83arr').digest()] = b'\x02'
    for i in (0, 1):
        peer.store[sha3_256(b'\x00\x83arr' + bytes([i])).digest()] = b'e'
    peer.store[sha3_256(b'\x02\x83var').digest()] = b'v'


@unit(cases=[dict(kind=k, w=w) for k in ('query', 'view') for w in WRITES if not (k == 'view' and w == 'fee')],
      covers=['refused', 'caught'],
      bounds='every writing operation, with every one byte value as key and value, in a query of a writable method and '
             'in a read-only method of a transaction, uncaught or caught by the SCORE, then tried again')
def attempts(ctx, kind, w):
    v = ctx.bytes('v', 1)
    catch = ctx.choice('catch', ['no', 'Exception', 'BaseException'])
    query = kind == 'query'
    method = 'view' if kind == 'view' else ctx.choice('method', ['run', 'view'])
    peer = Peer(ctx, on_call=lambda p, f, to, value, limit, m, params: [0, 0, None])
    seed(peer)
    before = dict(peer.store)
    seen = []

    def script(score, _):
        if catch == 'no':
            write(ctx, score, w, v)
            seen.append('done')
        else:
            for i in (0, 1):
                try:
                    write(ctx, score, w, v)
                    seen.append('done')
                except BaseException as e:
                    if catch == 'Exception' and not isinstance(e, Exception):
                        raise
                    ctx.cover('caught')
                    seen.append('caught')
        return 1
    scores.CTX[0] = script
    f = peer.invoke(sim.package(scores.Scripted), query, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 9, method, [],
                    info(ctx, {'schema': 0, 'get': 1, 'set': 3, 'replace': 2, 'delete': -1, 'eventLog': 1}))
    ctx.check(f.result is not None and f.escaped is None, 'the request is answered')
    ctx.check(peer.errors == [], 'nothing is written, logged or shared by a query')
    ctx.check(f.sets == [] and f.events == [] and f.fees == [], 'no write and no event leaves a read-only execution')
    ctx.check(len(peer.store) == len(before) and all(peer.store.get(k) is x for k, x in before.items()),
              'the store is as before')
    if f.result is None:
        return
    if w in ('call', 'send', 'transfer'):
        return
    if catch == 'no':
        ctx.cover('refused')
        ctx.check('done' not in seen, 'the write does not appear to succeed')
        ctx.check(f.result[0] == (5 if w in ('event', 'event0', 'fee') else 9), 'the failure is reported as a '
                  'denied access or an invalid event')
    else:
        ctx.check('done' not in seen, 'nor does it when the SCORE catches the refusal')


@unit(cases=[dict(w=w, how=h) for w in ('var.set', 'dict.del', 'array.put', 'event') for h in ('before', 'after', 'inner')],
      covers=['written', 'refused'],
      bounds='a transaction whose writable method runs a read-only call before or after its own write, directly and '
             'through another contract; a failing inner call')
def nesting(ctx, w, how):
    """the permission of a frame is its own: an inner read-only frame does not take it from, or give it to, another"""
    v = ctx.bytes('v', 1)
    code = sim.package(scores.Scripted)
    inner_writes = ctx.flag('inner writes')
    inner_kind = ctx.choice('inner', ['query', 'view', 'run'])
    costs = {}
    state = {}

    def on_call(p, f, to, value, limit, m, params):
        def then(p2, g):
            state['inner'] = g
            p2.reply_call([g.result[0], 0, g.result[2] if g.result[0] == 0 else 'failed'])
        p.queue_invoke(code, inner_kind == 'query', raw_addr('cx', 1), raw_addr('cx', 9), 0, limit,
                       'view' if inner_kind == 'view' else 'echo', [7], info(ctx, costs), then=then) \
            if inner_kind != 'view' else \
            p.queue_invoke(code, False, raw_addr('cx', 1), raw_addr('cx', 9), 0, limit, 'vecho', [7],
                           info(ctx, costs), then=then)
        return None
    peer = Peer(ctx, on_call=on_call)
    seed(peer)

    def script(score, name, *args):
        if name in ('echo', 'vecho'):
            if inner_writes:
                write(ctx, score, w, v)
            return 5
        if how != 'before':
            try:
                score.call(addr('cx', 9), 'x', {})
            except BaseException:
                pass
        if how != 'inner':
            write(ctx, score, w, v)
        if how == 'before':
            try:
                score.call(addr('cx', 9), 'x', {})
            except BaseException:
                pass
            write(ctx, score, w, v)
        return 1
    scores.CTX[0] = script
    f = peer.invoke(code, False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 9, 'run', [], info(ctx, costs))
    ctx.check(f.result is not None and f.escaped is None and peer.errors == [], 'the request is answered')
    if f.result is None:
        return
    g = state.get('inner')
    ctx.check(g is not None and g.result is not None, 'the inner request is answered')
    ctx.check(f.result[0] == 0, 'the outer request succeeds')
    ctx.check(bool(f.sets or f.events) == (how != 'inner'), 'the writable frame writes, whatever happened below it')
    if f.sets or f.events:
        ctx.cover('written')
    if g is None or g.result is None:
        return
    if inner_kind == 'run':
        ctx.check(bool(g.sets or g.events) == inner_writes, 'an inner writable frame writes')
        ctx.check(g.result[0] == 0, 'and succeeds')
    else:
        ctx.check(g.sets == [] and g.events == [], 'an inner read-only frame does not')
        ctx.check((g.result[0] != 0) == inner_writes, 'and fails when it tries')
        if inner_writes:
            ctx.cover('refused')


@unit(cases=[dict()], covers=['refused'], bounds='a read-only method that calls a writable method of its own in Python')
def local(ctx):
    """the read-only mode of a request holds for everything it runs"""
    v = ctx.bytes('v', 1)
    catch = ctx.flag('catch')
    again = ctx.flag('write after')
    peer = Peer(ctx)

    def script(score, name):
        if name == 'view':
            try:
                score.run()
            except BaseException:
                if not catch:
                    raise
            if again:
                score.var.set(v)
            return 0
        score.var.set(v)
        return 0
    scores.CTX[0] = script
    f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 9, 'view', [],
                    info(ctx, {}))
    ctx.check(f.result is not None and f.escaped is None and peer.errors == [], 'the request is answered')
    if f.result is None:
        return
    ctx.check(f.sets == [], 'nothing is written')
    if not catch or again:
        ctx.check(f.result[0] == 9, 'and the refusal is reported')
        ctx.cover('refused')
