"""Storage step accounting: exact, whatever the moment old-value replies are processed."""
import itertools
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, info
from harness.c05 import TYPES, typed_value
from iconservice import VarDB, DictDB
from hashlib import sha3_256

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01',
                        'price tables where replacing a value is never dearer than setting a fresh one',
                        'value contents do not matter to the charges']}


REAL = {0: dict(schema=0, get=0, set=320, replace=80, delete=-240, eventLog=100),
        1: dict(schema=1, get=25, getBase=3000, set=320, setBase=10000, delete=-240, deleteBase=200, log=100,
                logBase=5000),
        2: dict(schema=1, get=2, getBase=7, set=5, setBase=50, delete=-1, deleteBase=11, log=1, logBase=3)}
LENS = [3, 14, 1, 40, 5, 22, 9, 31]


def prices(ctx, schema):
    d = {'schema': schema}
    if schema == 0:
        for k in ('get', 'set', 'replace', 'eventLog'):
            d[k] = ctx.int('cost.' + k, 0, 10 ** 6)
        d['delete'] = ctx.int('cost.delete', -10 ** 6, 10 ** 6)
        ctx.assume(d['set'] >= d['replace'])
    else:
        for k in ('get', 'getBase', 'set', 'setBase', 'deleteBase', 'log', 'logBase'):
            d[k] = ctx.int('cost.' + k, 0, 10 ** 6)
        d['delete'] = ctx.int('cost.delete', -10 ** 6, 0)
        ctx.assume(d['setBase'] >= d['deleteBase'])
    return d


def c_set(c, n):
    return c['set'] * n + (c['setBase'] if c['schema'] else 0)


def c_get(c, n):
    return c['get'] * n + (c['getBase'] if c['schema'] else 0)


def c_del(c, n):
    return c['delete'] * n + (c['deleteBase'] if c['schema'] else 0)


def c_refund(c, old, new):
    if c['schema'] == 0:
        return (c['replace'] - c['set']) * new
    return (c['setBase'] + c['deleteBase']) // 2 - c['setBase'] + c['delete'] * old


SEQS = ['S0', 'D0', 'G0', 'S0 S0', 'S0 D0', 'D0 S0', 'D0 D1', 'D0 G1', 'G0 S0', 'S0 S1', 'S0 G0', 'B0 S0',
        'D0 S1', 'D0 S1 G2', 'D0 S1 D2', 'D0 D1 D2', 'S0 G0 S0', 'B0', 'D0 B1']
LONG = ['D0 D1 D2 D3 D4 S5', 'S0 D1 D2 D3 D4 S5', 'D0 S1 S2 S3 S4 S5', 'D0 D1 D2 D3 D4 D5 D6']
ALL3 = [' '.join('%s%d' % (k, i) for k, i in zip(ks, ix)) for ks in itertools.product('SDG', repeat=3)
        for ix in ((0, 1, 2), (0, 0, 1), (0, 1, 0), (0, 0, 0))]
MORE = [m for m in ALL3 if m not in SEQS]


@unit(cases=[dict(schema=s, seq=q) for s in (0, 1) for q in SEQS] + [dict(schema=s, seq=LONG[0]) for s in (0, 1)],
      thorough_cases=[dict(schema=s, seq=q) for s in (0, 1) for q in MORE + LONG[1:]],
      covers=['ok', 'outofstep', 'replace', 'delete-old'],
      bounds='sequences of up to 7 storage operations on up to 7 entries, present or absent; any prices up to 10^6 of '
             'both price schemas, any limit; value lengths fixed')
def any_prices(ctx, schema, seq):
    account(ctx, seq, prices(ctx, schema), None)


@unit(cases=[dict(table=t, seq=q) for t in (0, 1) for q in SEQS] + [dict(table=1, seq=q) for q in LONG[:1]],
      thorough_cases=[dict(table=t, seq=q) for t in (0, 1, 2) for q in MORE + LONG[1:]],
      covers=['ok', 'outofstep', 'replace', 'delete-old'],
      bounds='sequences of up to 7 storage operations on up to 7 entries, present or absent; any value lengths up to '
             '500, any limit; three price tables, among them the real one')
def any_lengths(ctx, table, seq):
    account(ctx, seq, REAL[table], 500)


def account(ctx, seq, c, maxlen):
    ops = seq.split()
    peer = Peer(ctx)
    limit = ctx.int('limit', 0, 2 ** 40)
    keys = sorted({o[1:] for o in ops})
    phys = {k: sha3_256(b'\x01\x83dic' + bytes([int(k)])).digest() for k in keys}
    many = len(keys) > 3
    model = {}

    def value(name, n):
        return ctx.blob(name, 1, maxlen) if maxlen else bytes([65 + n]) * LENS[n]
    for k in keys:
        # in the long sequences every removed entry exists
        if (many and any(o == 'D' + k for o in ops)) or ctx.flag('has' + k):
            v = value('old' + k, len(ops) + int(k) if not many else int(k))
            peer.store[phys[k]] = v
            model[k] = v
        else:
            model[k] = None
    vals = [value('new%d' % i, i) if o[0] == 'S' else b'' for i, o in enumerate(ops)]
    trace = []

    def script(score, name):
        for i, o in enumerate(ops):
            k = int(o[1:])
            if o[0] in 'SB':
                score.dic[k] = vals[i]
            elif o[0] == 'D':
                score.dic.remove(k)
            else:
                trace.append((o[1:], i, score.dic[k]))
        return 0
    scores.CTX[0] = script
    f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, limit, 'run', {},
                    info(ctx, c))
    # synchronous oracle
    total, prefixes = 0, []
    read = 0
    for i, o in enumerate(ops):
        k = o[1:]
        old = model[k]
        if o[0] == 'S':
            total = total + c_set(c, ctx.len(vals[i]))
            if old is not None:
                total = total + c_refund(c, ctx.len(old), ctx.len(vals[i]))
                ctx.cover('replace')
            model[k] = vals[i]
        elif o[0] == 'B':
            # an empty value is charged like a removal
            if old is not None:
                total = total + c_del(c, ctx.len(old))
            model[k] = b''
        elif o[0] == 'D':
            if old is not None:
                total = total + c_del(c, ctx.len(old))
                ctx.cover('delete-old')
            model[k] = None
        else:
            total = total + c_get(c, ctx.len(old) if old is not None else 0)
            if read < len(trace):
                ctx.check(ctx.eq(trace[read][2], old), 'a read returns the last value written')
            read += 1
        prefixes.append(total)
    ctx.check(f.escaped is None, 'the executor survives the request')
    ctx.check(peer.errors == [], 'protocol kept')
    ctx.check(peer.results == 1, 'exactly one RESULT')
    if f.result is None:
        return
    status, used, ret = f.result
    ctx.observe('res', [status, used])
    ctx.check(ctx.Or(status == 0, status == 10), 'status is success or out of step')
    ctx.check(used <= limit, 'step used within the limit')
    if status == 0:
        ctx.check(used == total, 'step used is the exact sum of the charges')
        ctx.check(total <= limit, 'success only if the charges fit the limit')
        for k in keys:
            ctx.check(ctx.eq(peer.store.get(phys[k]), model[k]), 'stored state is the one the operations define')
        ctx.cover('ok')
    else:
        ctx.check(used == limit, 'out of step uses up the limit')
        ctx.check(ctx.Or(*[p > limit for p in prefixes]), 'out of step only if the charges exceed the limit')
        ctx.cover('outofstep')


@unit(cases=[dict(t=t, c=c, table=k) for t in ('int', 'str', 'bytes', 'bool', 'Address') for c in ('var', 'dict')
             for k in (0, 1)],
      thorough_cases=[dict(t=t, c=c, table=2) for t in ('int', 'str', 'bytes', 'bool', 'Address')
                      for c in ('var', 'dict', 'nested')],
      covers=['fresh', 'replace'],
      bounds='one value of each type written over nothing or over another value, read, and removed: integers of 521 '
             'bits, texts of up to 2 characters, bytes of up to 3, every address; three price tables')
def contents(ctx, t, c, table):
    cost = REAL[table]
    ty = TYPES[t]
    v, raw = typed_value(ctx, t, 'v')
    key = {'var': b'\x02x', 'dict': b'\x01xk', 'nested': b'\x01xak'}[c]
    phys = sha3_256(key).digest()
    peer = Peer(ctx)
    steps = []

    def script(score, _):
        db = score.database
        if c == 'var':
            x = VarDB('x', db, value_type=ty)
            x.set(v)
            steps.append(peer.store.get(phys))
            x.get()
            x.remove()
        else:
            x = DictDB('x', db, value_type=ty, depth=2 if c == 'nested' else 1)
            y = x['a'] if c == 'nested' else x
            y['k'] = v
            steps.append(peer.store.get(phys))
            y['k']
            y.remove('k')
        return 0
    n = ctx.len(raw)
    total = c_set(cost, n) + c_get(cost, n) + c_del(cost, n)
    if n == 0:
        # an empty value is charged like a removal
        total = c_get(cost, n) + c_del(cost, n)
    if ctx.flag('present'):
        old = ctx.blob('old', 1, 60)
        peer.store[phys] = old
        if n == 0:
            total = total + c_del(cost, ctx.len(old))
        else:
            total = total + c_refund(cost, ctx.len(old), n)
        ctx.cover('replace')
    else:
        ctx.cover('fresh')
    scores.CTX[0] = script
    f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 9, 'run', {},
                    info(ctx, cost))
    ctx.check(f.escaped is None and peer.errors == [] and f.result is not None, 'the request is answered')
    if f.result is None:
        return
    ctx.check(f.result[0] == 0, 'success')
    ctx.check(ctx.eq(steps, [raw]), 'the value is stored in its plain encoding')
    ctx.check(f.result[1] == total, 'and charged by the size of that')
