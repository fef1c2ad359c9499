"""Values cross the executor boundary unchanged: parameters in, return values out, nested to any shape."""
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, info, Address, AddressPrefix

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01']}

LEAVES = ['none', 'true', 'false', 'int', 'bytes', 'longbytes', 'str', 'longstr', 'hx', 'cx', 'elist', 'edict']


def leaf(ctx, name, kinds):
    """(python value, tagged wire form) of one leaf"""
    k = ctx.choice(name + '.kind', kinds)
    if k == 'none':
        return None, [sim.NIL, None]
    if k == 'true':
        return True, [sim.BOOL, b'\x01']
    if k == 'false':
        return False, [sim.BOOL, b'\x00']
    if k == 'int':
        v = ctx.int(name + '.int', -(1 << 520), 1 << 520)
        return v, [sim.INT, sim.enc_int(ctx, v)]
    if k == 'bytes':
        v = ctx.bytes(name + '.bytes', ctx.choice(name + '.n', [0, 1, 3]))
        return v, [sim.BYTES, v]
    if k == 'longbytes':
        v = ctx.blob(name + '.bytes', 0, 70000)
        return v, [sim.BYTES, v]
    if k == 'str':
        v = ctx.str(name + '.str', ctx.choice(name + '.n', [0, 1, 2]))
        return v, [sim.STRING, v.encode('utf-8')]
    if k == 'longstr':
        v = ctx.blob(name + '.str', 0, 70000, 'str')
        return v, [sim.STRING, v.encode('utf-8')]
    if k in ('hx', 'cx'):
        b = ctx.bytes(name + '.body', 20)
        return Address(AddressPrefix.CONTRACT if k == 'cx' else AddressPrefix.EOA, b), \
            [sim.ADDRESS, (b'\x01' if k == 'cx' else b'\x00') + b]
    if k == 'elist':
        return [], [sim.LIST, []]
    return {}, [sim.DICT, {}]


def build(ctx, shape, kinds, n=[0]):
    """(python value, wire form) for a shape: '.' leaf, (..) list, {k: ..} dict"""
    if shape == '.':
        return leaf(ctx, 'v', kinds)
    if isinstance(shape, dict):
        d, w = {}, {}
        for k, s in shape.items():
            d[k], w[k.encode('utf-8')] = build(ctx, s, kinds)
        return d, [sim.DICT, w]
    xs = [build(ctx, s, kinds) for s in shape]
    return [x for x, _ in xs], [sim.LIST, [w for _, w in xs]]


def norm(w):
    """dictionary keys of the wire form as bytes"""
    if isinstance(w, (list, tuple)):
        return [norm(x) for x in w]
    if isinstance(w, dict):
        return {(k.encode('utf-8') if isinstance(k, str) else k): norm(x) for k, x in w.items()}
    return w


FEW = ['none', 'true', 'int', 'bytes', 'str', 'cx']
SHAPES = ['.', ('.',), {'k': '.'}]
DEEP = [('.', '.'), {'a': '.', 'bé': '.'}, (('.',), {'x': '.'}), {'o': {'i': ('.',)}}, ((('.',),),)]


@unit(cases=[dict(shape=s, kinds=LEAVES) for s in SHAPES] + [dict(shape=s, kinds=FEW) for s in DEEP],
      thorough_cases=[dict(shape=s, kinds=LEAVES) for s in DEEP] + [dict(shape=('.', {'k': '.'}, '.'), kinds=FEW)],
      covers=['ok'],
      bounds='integers of 521 bits, byte strings and texts up to 70000 (short ones with every content), containers '
             'nested 3 deep, up to 3 leaves')
def round_trip(ctx, shape, kinds):
    v, w = build(ctx, shape, kinds)
    got = []

    def script(score, name, a):
        got.append(a)
        return a
    scores.CTX[0] = script
    peer = Peer(ctx)
    f = peer.queue_invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 9, 'echo',
                          ['raw', [sim.LIST, [w]]], info(ctx))
    raw = []
    peer.raw_result = raw
    err = peer.run()
    ctx.check(err is None and peer.errors == [], 'the request is answered')
    ctx.check(len(got) == 1 and ctx.eq(got[0], v), 'the method receives the value that was sent')
    ctx.check(len(raw) == 1 and raw[0][0] == 0, 'success')
    if raw and raw[0][0] == 0:
        ctx.check(ctx.eq(norm(raw[0][2]), w), 'the answer carries the value that was returned')
        ctx.cover('ok')


def entries(w):
    """entries of a wire dictionary, keys as bytes"""
    return [(k.encode('utf-8') if isinstance(k, str) else k, norm(x)) for k, x in w.items()]


def same_entries(ctx, xs, ys):
    """equal as sets of entries"""
    return len(xs) == len(ys) and ctx.And(*[ctx.Or(*[ctx.And(ctx.eq(k, j), ctx.eq(x, y)) for j, y in ys])
                                            for k, x in xs])


@unit(cases=[dict(n=(1,)), dict(n=(2,)), dict(n=(1, 1)), dict(n=(0, 1)), dict(n=(1, 2))],
      thorough_cases=[dict(n=(2, 2)), dict(n=(3,)), dict(n=(1, 3)), dict(n=(1, 1, 1))], covers=['ok'],
      bounds='dictionaries of up to 3 entries with every distinct keys of up to 3 characters, flat and nested')
def any_keys(ctx, n):
    keys = [ctx.str('key%d' % i, m) for i, m in enumerate(n)]
    for i, k in enumerate(keys):
        for j in range(i):
            ctx.assume(ctx.Not(ctx.eq(keys[j], k)))
    nested = ctx.flag('nested')
    vals = [ctx.int('val%d' % i, 0, 1000) for i in range(len(n))]
    w = {}
    for k, v in zip(keys, vals):
        w[k.encode('utf-8')] = [sim.INT, sim.enc_int(ctx, v)]
    got = []

    def script(score, name, a):
        got.append(a)
        d = {}
        for k, v in zip(keys, vals):
            d[k] = v
        return {'x': d} if nested else d
    scores.CTX[0] = script
    peer = Peer(ctx)
    sent = [sim.DICT, {b'x': [sim.DICT, w]} if nested else w]
    peer.queue_invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 9, 'echo',
                      ['raw', [sim.LIST, [sent]]], info(ctx))
    raw = []
    peer.raw_result = raw
    err = peer.run()
    ctx.check(err is None and peer.errors == [], 'the request is answered')
    ctx.check(len(got) == 1 and len(raw) == 1 and raw[0][0] == 0, 'success')
    if len(got) == 1 and len(raw) == 1 and raw[0][0] == 0:
        g, r = got[0], raw[0][2]
        if nested:
            g, r = g['x'], r[1]
            r = list(r.values())[0]
        ctx.check(isinstance(g, dict) and same_entries(ctx, list(zip(keys, vals)), list(g.items())),
                  'the method receives the entries that were sent')
        ctx.check(r[0] == sim.DICT and same_entries(ctx, entries(w), entries(r[1])),
                  'the answer carries the entries that were returned')
        ctx.cover('ok')


@unit(cases=[dict(kind=k) for k in ('float', 'object', 'intkey', 'byteskey', 'set', 'nested', 'type', 'complex')],
      covers=['rejected'], bounds='one unsupported value, at top level or nested')
def unsupported(ctx, kind):
    bad = {'float': 1.5, 'object': object(), 'intkey': {1: 2}, 'byteskey': {b'a': 1}, 'set': {1, 2},
           'nested': [{'a': [1.0]}], 'type': int, 'complex': [1, 2j]}[kind]
    limit = ctx.int('limit', 0, 2 ** 70)
    scores.CTX[0] = lambda score, name: bad
    peer = Peer(ctx)
    f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, limit, 'run', [],
                    info(ctx))
    ctx.check(f.escaped is None and peer.errors == [] and peer.results == 1, 'answered exactly once')
    if f.result:
        ctx.check(f.result[0] == 1, 'a value that has no encoding fails the call')
        ctx.check(ctx.eq(f.result[1], limit), 'and uses up the limit')
        ctx.cover('rejected')


@unit(cases=[dict(n=n) for n in range(0, 4)], covers=['bad'], bounds='boolean fields of 0 to 3 arbitrary bytes')
def illegal_bool(ctx, n):
    b = ctx.bytes('b', n)
    peer = Peer(ctx)
    try:
        v = peer.proxy.decode_any([sim.BOOL, b])
    except Exception as e:
        if type(e).__module__.startswith('symex'):
            raise
        v = 'error'
    if v == 'error':
        ctx.check(ctx.Not(ctx.Or(ctx.eq(b, b'\x00'), ctx.eq(b, b'\x01'))) if n == 1 else True, 'legal booleans decode')
        ctx.cover('bad')
    else:
        ctx.check(n == 1 and ctx.eq(b, b'\x01' if v else b'\x00'), 'nothing but 0 and 1 is a boolean')


@unit(cases=[dict(kind=k) for k in LEAVES[:10]], covers=['ok'],
      bounds='one value of each base type as an event parameter, 521-bit integers, contents up to 70000')
def event_value(ctx, kind):
    v, w = leaf(ctx, 'v', [kind])
    e = Peer(ctx).proxy.encode(v)
    ctx.check(ctx.eq(e, w[1]), 'events carry the plain encoding')
    ctx.cover('ok')
