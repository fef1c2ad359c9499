"""Storage containers behave as a variable, a dictionary and a list, and touch nothing but their own entries."""
import hashlib
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, info, Address, AddressPrefix
from iconservice import VarDB, DictDB, ArrayDB

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01',
                        'storage keys as decided in C04']}


def h(*parts):
    s = b''
    for p in parts:
        s = s + p
    return hashlib.sha3_256(s).digest()


def rlp1(ctx, b):
    """encoding of a one byte key"""
    return b if b[0] < 0x80 else b'\x81' + b


def run(ctx, peer, script, limit=10 ** 12, costs=None):
    scores.CTX[0] = script
    f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, limit, 'run', [],
                    info(ctx, costs))
    ctx.check(f.escaped is None and peer.errors == [], 'the request is answered')
    return f


def same_store(ctx, store, want):
    """the whole store is the wanted one: (key, value) pairs"""
    ctx.check(len(store) == len(want), 'no entry beside those of the container')
    for k, v in want:
        ctx.check(ctx.eq(store.get(k), v), 'the store holds what the container holds')


DOPS = ['set', 'get', 'remove', 'del', 'in']


@unit(cases=[dict(first=a, second=b, n=2) for a in DOPS for b in DOPS],
      thorough_cases=[dict(first=a, second=b, n=3) for a in DOPS for b in DOPS], covers=['hit', 'miss', 'same key'],
      bounds='histories of 2 operations (3 in the thorough tier) on a dictionary, then a look at every entry, every pair of one byte keys, opaque '
             'values of 0 to 40 bytes; an entry of another container present')
def dictionary(ctx, first, second, n):
    keys = [ctx.bytes('k0', 1), ctx.bytes('k1', 1)]
    if ctx.eq(keys[0], keys[1]):
        ctx.cover('same key')
        ks = [0, 0]
    else:
        ks = [0, 1]
    peer = Peer(ctx)
    other = ctx.blob('other', 1, 40)
    peer.store[h(b'\x02', b'\x83var')] = other
    model = {}
    if ctx.flag('present'):
        v = ctx.blob('before', 0, 40)
        peer.store[h(b'\x01', b'\x83dic', rlp1(ctx, keys[0]))] = v
        model[ks[0]] = v
    bad = []

    def script(score, _):
        for i in range(n):
            op = first if i == 0 else second if i == 1 else ctx.choice('op%d' % i, DOPS)
            j = 0 if i == 0 else ctx.choice('which%d' % i, [0, 1])
            k, m = keys[j], ks[j]
            if op == 'set':
                v = ctx.blob('v%d' % i, 0, 40)
                score.dic[k] = v
                model[m] = v
            elif op == 'get':
                bad.append(ctx.eq(score.dic[k], model.get(m)))
                ctx.cover('hit' if m in model else 'miss')
            elif op == 'in':
                bad.append((k in score.dic) == (m in model))
            elif op == 'remove':
                score.dic.remove(k)
                model.pop(m, None)
            else:
                del score.dic[k]
                model.pop(m, None)
        for j in (0, 1):
            bad.append(ctx.eq(score.dic[keys[j]], model.get(ks[j])))
        bad.append(ctx.eq(score.var.get(), other))
    f = run(ctx, peer, script)
    ctx.check(f.result is not None and f.result[0] == 0, 'success')
    ctx.check(len(bad) > 0 and ctx.And(*bad), 'reads agree with a dictionary')
    same_store(ctx, peer.store, [(h(b'\x02', b'\x83var'), other)] +
               [(h(b'\x01', b'\x83dic', rlp1(ctx, keys[m])), v) for m, v in model.items()])


AOPS = ['put', 'pop', 'get', 'set', 'len', 'iter', 'in']


@unit(cases=[dict(size=s, first=a, n=2) for s in (0, 1, 2, 3) for a in AOPS],
      thorough_cases=[dict(size=s, first=a, n=3) for s in (0, 1, 2) for a in AOPS],
      covers=['in range', 'out of range', 'found', 'not found', 'empty pop'],
      bounds='arrays of up to 3 elements, histories of 2 operations (3 in the thorough tier), any index, values of 0 to '
             '2 bytes with every content')
def array(ctx, size, first, n):
    peer = Peer(ctx)
    model = [ctx.bytes('e%d' % i, [1, 2, 0][i % 3]) for i in range(size)]
    szkey = h(b'\x00', b'\x83arr')
    el = lambda i: h(b'\x00', b'\x83arr', bytes([i]))
    other = ctx.blob('other', 1, 40)
    peer.store[h(b'\x02', b'\x83var')] = other
    if size:
        peer.store[szkey] = bytes([size])
        for i in range(size):
            peer.store[el(i)] = model[i]
    ever = [size]
    bad = []

    def contains(p, data):
        prefix, value, limit = data
        bad.append(ctx.eq(prefix, b'\x00\x83arr'))
        count = total = 0
        for i in range(len(model)):
            v = p.store.get(h(prefix, bytes([i])))
            count += 1
            total = total + ctx.len(v)
            if v == value:
                return [True, count, total]
        return [False, count, total]
    peer.on_contains = contains

    def script(score, _):
        arr = score.arr
        for i in range(n):
            op = first if i == 0 else ctx.choice('op%d' % i, AOPS)
            if op == 'put':
                v = ctx.bytes('v%d' % i, 1)
                arr.put(v)
                model.append(v)
                ever[0] = max(ever[0], len(model))
            elif op == 'pop':
                r = arr.pop()
                bad.append(ctx.eq(r, model.pop() if model else None))
                if r is None:
                    ctx.cover('empty pop')
            elif op in ('get', 'set'):
                x = ctx.int('i%d' % i, -(1 << 70), 1 << 70)
                v = ctx.bytes('v%d' % i, 2) if op == 'set' else None
                try:
                    if op == 'get':
                        how = ctx.choice('how%d' % i, ['[]', 'get'])
                        r = arr[x] if how == '[]' else arr.get(x)
                    else:
                        arr[x] = v
                    ok = True
                except IconServiceBaseException as e:
                    ok = False
                    bad.append(e.code == 6)
                inside = ctx.And(x >= -len(model), x < len(model))
                bad.append(inside if ok else ctx.Not(inside))
                ctx.cover('in range' if ok else 'out of range')
                if ok:
                    for m in range(len(model)):
                        hit = ctx.Or(x == m, x == m - len(model))
                        if op == 'get':
                            bad.append(ctx.Implies(hit, ctx.eq(r, model[m])))
                        elif hit:
                            model[m] = v
                            break
            elif op == 'len':
                bad.append(len(arr) == len(model))
            elif op == 'iter':
                bad.append(ctx.eq([e for e in arr], list(model)))
            else:
                v = ctx.bytes('q%d' % i, 1)
                r = v in arr
                bad.append(bool(r) == bool(ctx.Or(*[ctx.eq(v, m) for m in model])))
                ctx.cover('found' if r else 'not found')
        bad.append(len(arr) == len(model))
        bad.append(ctx.eq([e for e in arr], list(model)))
    f = run(ctx, peer, script)
    ctx.check(f.result is not None and f.result[0] == 0, 'success')
    ctx.check(len(bad) > 0 and ctx.And(*bad), 'reads agree with a list')
    want = [(h(b'\x02', b'\x83var'), other)] + [(el(i), v) for i, v in enumerate(model)]
    if szkey in peer.store:
        want.append((szkey, bytes([len(model)])))
    same_store(ctx, peer.store, want)


from pyexec.base.exception import IconServiceBaseException            # noqa: E402

TYPES = {'int': int, 'str': str, 'bytes': bytes, 'bool': bool, 'Address': Address}
DEFAULT = {'int': 0, 'str': '', 'bytes': None, 'bool': False, 'Address': None}


def typed_value(ctx, t, name):
    """(value, what is stored)"""
    if t == 'int':
        v = ctx.int(name, -(1 << 520), 1 << 520)
        return v, sim.enc_int(ctx, v)
    if t == 'bool':
        v = ctx.flag(name)
        return v, b'\x01' if v else b'\x00'
    if t == 'str':
        v = ctx.str(name, ctx.choice(name + '.n', [0, 1, 2]))
        return v, v.encode('utf-8')
    if t == 'bytes':
        v = ctx.bytes(name, ctx.choice(name + '.n', [0, 1, 3]))
        return v, v
    b = ctx.bytes(name, 20)
    c = ctx.flag(name + '.contract')
    return Address(AddressPrefix.CONTRACT if c else AddressPrefix.EOA, b), (b'\x01' if c else b'\x00') + b


@unit(cases=[dict(t=t, c=c) for t in TYPES for c in ('var', 'dict', 'array', 'nested')],
      covers=['value', 'default'], bounds='one value of each supported type in each container: integers of 521 bits, '
      'texts of up to 2 characters, bytes of up to 3, every address; a following removal')
def typed(ctx, t, c):
    ty = TYPES[t]
    v, raw = typed_value(ctx, t, 'v')
    peer = Peer(ctx)
    got, bad = [], []

    def script(score, _):
        db = score.database
        if c == 'var':
            x = VarDB('x', db, value_type=ty)
            got.append(x.get())
            x.set(v)
            got.append(x.get())
            bad.append(ctx.eq(peer.store.get(h(b'\x02x')), raw))
            x.remove()
            got.append(x.get())
        elif c == 'dict':
            x = DictDB('x', db, value_type=ty)
            got.append(x['k'])
            x['k'] = v
            got.append(x['k'])
            bad.append(ctx.eq(peer.store.get(h(b'\x01xk')), raw))
            del x['k']
            got.append(x['k'])
        elif c == 'nested':
            x = DictDB('x', db, value_type=ty, depth=2)
            got.append(x['a']['k'])
            x['a']['k'] = v
            got.append(x['a']['k'])
            bad.append(ctx.eq(x['b']['k'], DEFAULT[t]))
            bad.append(ctx.eq(peer.store.get(h(b'\x01xak')), raw))
            x['a'].remove('k')
            got.append(x['a']['k'])
        else:
            x = ArrayDB('x', db, value_type=ty)
            got.append(DEFAULT[t])
            x.put(v)
            got.append(x[0])
            bad.append(ctx.eq(peer.store.get(h(b'\x00x\x00')), raw))
            bad.append(ctx.eq(x.pop(), v))
            bad.append(x.pop() is None)
            got.append(DEFAULT[t])
    f = run(ctx, peer, script)
    ctx.check(f.result is not None and f.result[0] == 0, 'success')
    ctx.check(len(got) == 3, 'three reads')
    if len(got) == 3:
        ctx.check(ctx.And(ctx.eq(got[0], DEFAULT[t]), ctx.eq(got[2], DEFAULT[t])), 'a missing value reads as the default')
        ctx.check(ctx.eq(got[1], v), 'a value reads back as it was written')
        ctx.check(ctx.And(*bad), 'and is stored in its plain encoding')
        ctx.cover('value')
        ctx.cover('default')


@unit(cases=[dict(what=w) for w in ('set', 'remove', 'del', 'iter', 'key', 'value', 'none')], covers=['rejected'],
      bounds='each misuse on a two level dictionary; unsupported keys and values')
def misuse(ctx, what):
    peer = Peer(ctx)
    v = ctx.bytes('v', 2)

    def script(score, _):
        x = DictDB('x', score.database, value_type=bytes, depth=2)
        if what == 'set':
            x['a'] = v
        elif what == 'remove':
            x.remove('a')
        elif what == 'del':
            del x['a']
        elif what == 'iter':
            for _ in x:
                pass
        elif what == 'key':
            x[1.5]['a'] = v
        elif what == 'value':
            score.dic['a'] = 1.5
        else:
            score.dic[None] = v
    f = run(ctx, peer, script)
    ctx.check(f.result is not None and f.result[0] == (8 if what in ('set', 'remove', 'del', 'iter') else 6),
              'misuse is rejected with its status')
    ctx.check(f.sets == [] and peer.store == {}, 'and changes nothing')
    ctx.cover('rejected')


@unit(cases=[dict(size=s, schema=c) for s in (0, 1, 2) for c in (0, 1)], covers=['found', 'not found', 'outofstep'],
      bounds='membership tests on arrays of up to 2 elements with opaque values of 1 to 40 bytes, any limit, fixed '
             'prices')
def membership_charge(ctx, size, schema):
    costs = {'schema': 0, 'get': 7} if schema == 0 else {'schema': 1, 'get': 7, 'getBase': 1001}
    base = costs.get('getBase', 0)
    limit = ctx.int('limit', 0, 20000)
    peer = Peer(ctx)
    vals = [ctx.blob('e%d' % i, 1, 40) for i in range(size)]
    where = ctx.choice('where', list(range(size)) + [None])
    q = ctx.blob('q', 1, 40)
    if size:
        peer.store[h(b'\x00', b'\x83arr')] = bytes([size])
    asked, reply = [], [False, 0, 0]
    for i in range(size):
        reply = [where == i, i + 1, reply[2] + ctx.len(vals[i])]
        if where == i:
            break

    def contains(p, data):
        asked.append(data)
        return reply
    peer.on_contains = contains
    out = []

    def script(score, _):
        out.append(q in score.arr)
    f = run(ctx, peer, script, limit, costs)
    ctx.check(f.result is not None, 'answered')
    if f.result is None:
        return
    first = base + 7 * (1 if size else 0)
    total = first + (base * reply[1] + 7 * reply[2] if size else 0)
    if f.result[0] == 0:
        ctx.check(len(asked) == (1 if size else 0), 'one question for a list that is not empty')
        if asked:
            ctx.check(ctx.eq(asked[0][0], b'\x00\x83arr') and ctx.eq(asked[0][1], q), 'about this list and this value')
            ctx.check(asked[0][2] == limit - first, 'with the steps that are left')
        ctx.check(f.result[1] == total and total <= limit, 'every element that was read is charged')
        ctx.check(out == [where is not None], 'the answer')
        ctx.cover('found' if where is not None else 'not found')
    else:
        ctx.check(f.result[0] == 10 and total > limit and f.result[1] == limit, 'out of step only beyond the limit')
        ctx.cover('outofstep')
