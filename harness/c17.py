"""Functions of the SCORE API: their results, and exactly the steps they are priced at."""
import hashlib
import json
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, addr, info, Address, AddressPrefix
from iconservice import (sha3_256 as score_sha3_256, sha_256 as score_sha_256, json_dumps as score_dumps,
                         json_loads as score_loads, create_address_with_key as score_create, recover_key as score_recover)
from coincurve import PrivateKey

META = {'assumptions': ['hash functions are uninterpreted functions of their input on symbolic data',
                        'secp256k1 and the JSON codec are used as they are, on the listed concrete inputs only']}

PRIV = [PrivateKey(bytes([k]) * 32) for k in (1, 2, 0x7f)]
COMPRESSED = [p.public_key.format(compressed=True) for p in PRIV]
UNCOMPRESSED = [p.public_key.format(compressed=False) for p in PRIV]


def serve(ctx, script, price, limit, query=False, revision=0, extra=None):
    scores.CTX[0] = script
    peer = Peer(ctx)
    costs = {'apiCall': price}
    costs.update(extra or {})
    f = peer.invoke(sim.package(scores.Scripted), query, raw_addr('hx', 2), raw_addr('cx', 1), 0, limit,
                    'view' if query else 'run', [], info(ctx, costs, revision))
    ctx.check(f.escaped is None and peer.errors == [] and f.result is not None, 'the request is answered')
    return f


def outcome(ctx, f, out, total, limit, n):
    """charged exactly, or out of step without the result"""
    if f.result is None:
        return False
    if f.result[0] == 0:
        ctx.cover('paid')
        ctx.check(ctx.And(f.result[1] == total, total <= limit), 'charged by the price of the function')
        return len(out) == n
    ctx.cover('outofstep')
    ctx.check(ctx.And(f.result[0] == 10, total > limit, f.result[1] == limit), 'out of step beyond the limit only')
    ctx.check(len(out) < n, 'and no result then')
    return False


@unit(cases=[dict(name=n, size=s) for n in ('sha3_256', 'sha256') for s in ('any', 0, 1, 31, 32, 33)]
      + [dict(name='sha3_256', size=64), dict(name='sha256', size='big')], covers=['paid', 'outofstep'],
      bounds='data of any length up to 4096 (up to 2^24 in one case) and any content, any price up to 10^9 and any limit; '
             'request or query')
def hashing(ctx, name, size):
    price = ctx.int('price', 0, 10 ** 9) if isinstance(size, int) else 10000
    limit = ctx.int('limit', 0, 10 ** 13)
    query = ctx.flag('query')
    if size == 'any':
        data = ctx.blob('data', 0, 4096)
    elif size == 'big':
        data = ctx.blob('data', 4097, 1 << 24)
    else:
        data = ctx.bytes('data', size)
    n = ctx.len(data)
    out = []
    fn = score_sha3_256 if name == 'sha3_256' else score_sha_256

    def script(score, _):
        out.append(fn(data))
        return 0
    f = serve(ctx, script, price, limit, query)
    chunks = (n + 31) // 32
    if outcome(ctx, f, out, price + price * chunks // 10, limit, 1):
        ctx.check(ctx.eq(out[0], getattr(hashlib, name)(data).digest()), 'the hash of the data')


@unit(cases=[dict(name=n) for n in ('sha3_256', 'sha256')], covers=['refused'],
      bounds='seven values that are not bytes')
def hashing_other(ctx, name):
    v = ctx.choice('value', [None, '', 'text', 5, True, [], Address(AddressPrefix.EOA, b'\x01' * 20)])
    fn = score_sha3_256 if name == 'sha3_256' else score_sha_256
    f = serve(ctx, lambda score, _: fn(v), 100, 10 ** 6)
    if f.result is None:
        return
    ctx.check(f.result[:2] == (6, 0), 'only bytes are hashed')
    ctx.cover('refused')


VALUES = [None, True, 0, -12, 1 << 80, '', 'abc', 'é한', [], [1, 'a', None], {}, {'a': 1, 'b': [2, {'c': 'x' * 300}]},
          'y' * 1000, {'k': ['z' * 77] * 20}]


@unit(cases=[dict(fn='dumps', n=n) for n in range(len(VALUES))] + [dict(fn='loads', n=n) for n in range(len(VALUES))],
      covers=['paid', 'outofstep', 'free'],
      bounds='14 values and their texts; any price up to 10^9, any limit, and every revision of 10 bits')
def jsons(ctx, fn, n):
    v = VALUES[n]
    price = ctx.int('price', 0, 10 ** 9)
    limit = ctx.int('limit', 0, 10 ** 13)
    revision = ctx.int('revision', 0, 1023)
    compact = (revision // 256) % 2 == 1
    compact = True if compact else False
    out = []
    spaced = json.dumps(v, ensure_ascii=False, indent=1)

    def script(score, _):
        out.append(score_dumps(v) if fn == 'dumps' else score_loads(spaced))
        return 0
    f = serve(ctx, script, price, limit, False, revision)
    if fn == 'dumps':
        text = json.dumps(v, separators=(',', ':')) if compact else json.dumps(v)
        unit_price = price * 5000 // 1000
        size = len(text.encode())
        want = text
    else:
        unit_price = price * 4000 // 1000
        size = len(spaced.encode())
        want = json.loads(spaced)
    total = unit_price + unit_price * size // 100 if compact else 0
    if not compact:
        ctx.cover('free')
    if outcome(ctx, f, out, total, limit, 1):
        ctx.check(ctx.eq(out[0], want), 'the text of the value, or the value of the text')


@unit(cases=[dict()], covers=['none', 'bad'], bounds='values that are not texts, and texts that are not JSON')
def loads_other(ctx):
    v = ctx.choice('value', [None, 5, b'{}', [], '', '{', 'nul', '[1,]'])
    revision = ctx.choice('revision', [0, 256])
    out = []
    f = serve(ctx, lambda score, _: out.append(score_loads(v)), 100, 10 ** 6, False, revision)
    if f.result is None:
        return
    if not isinstance(v, str):
        ctx.cover('none')
        ctx.check(out == [None] and f.result[:2] == (0, 0), 'nothing, and nothing charged')
    else:
        ctx.cover('bad')
        c = (400 + 4 * len(v)) if revision else 0
        ctx.check(out == [] and f.result[:2] == (1, c), 'the method fails, after the charge')


@unit(cases=[dict(kind=k) for k in ('uncompressed', 'compressed', 'wrong length', 'not bytes')],
      covers=['paid', 'outofstep', 'address', 'no address', 'free'],
      bounds='every key of 65 bytes, 3 keys of 33 bytes and broken ones, lengths 0 to 70, values that are not bytes; any '
             'price up to 10^9, any limit')
def keys(ctx, kind):
    price = ctx.int('price', 0, 10 ** 9)
    limit = ctx.int('limit', 0, 10 ** 13)
    total = 0
    want = None
    if kind == 'uncompressed':
        key = ctx.bytes('key', 65)
        total = price * 1500 // 1000
        if key[0] == 4:
            want = hashlib.sha3_256(key[1:]).digest()[-20:]
    elif kind == 'compressed':
        key, i = ctx.choice('key', [(k, i) for i, k in enumerate(COMPRESSED)]
                            + [(bytes([p]) + k[1:], None) for p in (0, 1, 4, 5, 255) for k in COMPRESSED[:1]]
                            + [(b'\x02' + b'\xff' * 32, None), (b'\x03' + bytes(32), None)])
        total = price * 15000 // 1000
        if i is not None:
            want = hashlib.sha3_256(UNCOMPRESSED[i][1:]).digest()[-20:]
    elif kind == 'wrong length':
        n = ctx.choice('n', [x for x in range(71) if x not in (33, 65)])
        key = b'\x04' + bytes(n - 1) if n else b''
    else:
        key = ctx.choice('key', [None, 5, 'x' * 33, 'x' * 65, [4] * 65])
    out = []

    def script(score, _):
        out.append(score_create(key))
        return 0
    f = serve(ctx, script, price, limit)
    if kind in ('wrong length', 'not bytes'):
        ctx.cover('free')
    if outcome(ctx, f, out, total, limit, 1):
        if want is None:
            ctx.cover('no address')
            ctx.check(out[0] is None, 'no address of what is not a key')
        else:
            ctx.cover('address')
            a = out[0]
            ctx.check(isinstance(a, Address) and a.prefix == AddressPrefix.EOA and ctx.eq(a.body, want),
                      'the address of the key')


@unit(cases=[dict(k=k) for k in range(len(PRIV))], covers=['paid', 'outofstep', 'key', 'no key'],
      bounds='signatures of 3 keys, right or broken in 9 ways, both forms of keys; any price up to 10^9, any limit')
def recover(ctx, k):
    price = ctx.int('price', 0, 10 ** 9)
    limit = ctx.int('limit', 0, 10 ** 13)
    h = hashlib.sha3_256(b'message').digest()
    sig = PRIV[k].sign_recoverable(h, hasher=None)
    how = ctx.choice('how', ['right', 'other hash', 'short hash', 'long hash', 'short signature', 'long signature',
                             'bad id', 'zero', 'text', 'nothing'])
    want = UNCOMPRESSED[k]
    form = ctx.choice('form', ['default', True, False])
    if form is not False:
        want = COMPRESSED[k]
    args = {'right': (h, sig), 'other hash': (hashlib.sha3_256(b'x').digest(), sig), 'short hash': (h[:31], sig),
            'long hash': (h + b'x', sig), 'short signature': (h, sig[:64]), 'long signature': (h, sig + b'\0'),
            'bad id': (h, sig[:64] + b'\x04'), 'zero': (h, bytes(65)), 'text': ('a' * 32, sig), 'nothing': (None, None)}[how]
    out = []

    def script(score, _):
        out.append(score_recover(*args) if form == 'default' else score_recover(args[0], args[1], form))
        return 0
    f = serve(ctx, script, price, limit)
    if outcome(ctx, f, out, price * 70000 // 1000, limit, 1):
        if how == 'right':
            ctx.cover('key')
            ctx.check(out[0] == want, 'the key that signed')
        elif how == 'other hash':
            ctx.check(out[0] != want, 'another hash has another key')
        else:
            ctx.cover('no key')
            ctx.check(out[0] is None, 'no key of what is not a signature')


@unit(cases=[dict(n=2), dict(n=3)], covers=['paid', 'outofstep'],
      bounds='2 or 3 functions in one method, any price and any limit: charges add up in order, and the method stops at the '
             'first that cannot be paid')
def sequence(ctx, n):
    price = ctx.int('price', 0, 10 ** 9)
    limit = ctx.int('limit', 0, 10 ** 13)
    kinds = [ctx.choice('fn%d' % i, ['hash', 'create', 'recover', 'dumps']) for i in range(n)]
    out = []

    def script(score, _):
        for k in kinds:
            if k == 'hash':
                score_sha3_256(b'x' * 70)
            elif k == 'create':
                score_create(COMPRESSED[0])
            elif k == 'recover':
                score_recover(None, None)
            else:
                score_dumps([1, 2])
            out.append(k)
        return 0
    f = serve(ctx, script, price, limit, False, 256)
    costs = {'hash': price + price * 3 // 10, 'create': price * 15, 'recover': price * 70, 'dumps': price * 5 + price * 5 * 5 // 100}
    total, done = 0, 0
    for k in kinds:
        total = total + costs[k]
        if total > limit:
            break
        done += 1
    if f.result is None:
        return
    ctx.check(len(out) == done, 'the method stops at the first function it cannot pay')
    if done == n:
        ctx.cover('paid')
        ctx.check(f.result[0] == 0 and ctx.eq(f.result[1], total), 'the sum of the charges')
    else:
        ctx.cover('outofstep')
        ctx.check(ctx.And(f.result[0] == 10, f.result[1] == limit), 'out of step')
