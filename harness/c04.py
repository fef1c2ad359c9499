"""Storage layout: every container entry has its own key, and the key is the published layout."""
import hashlib
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, info, Address, AddressPrefix
from iconservice import VarDB, DictDB, ArrayDB

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01',
                        'SHA3-256 is collision free (it is an injective uninterpreted function to the solver)']}

TAG = {'array': b'\x00', 'dict': b'\x01', 'var': b'\x02'}


def be(n):
    """minimal big endian form of a positive length"""
    for size in (1, 2, 3, 4):
        if n < 256 ** size:
            return n.to_bytes(size, 'big')


def rlp(ctx, b):
    """byte string encoding of RLP, written from its definition"""
    n = ctx.len(b)
    if n == 1 and b[0] < 0x80:
        return b
    if n <= 55:
        return (0x80 + n).to_bytes(1, 'big') + b
    ln = be(n)
    return (0xb7 + len(ln)).to_bytes(1, 'big') + ln + b


def text(ctx, name, kind):
    """a key of the kind: (python key, encoded bytes)"""
    if isinstance(kind, int):
        v = ctx.bytes(name, kind)
        return v, v
    if isinstance(kind, tuple):
        v = ctx.blob(name, *kind)
        return v, v
    if kind.startswith('int'):
        n = int(kind[3:])
        v = ctx.int(name, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
        if n > 1:
            ctx.assume(ctx.Or(v < -(1 << (8 * n - 9)), v >= 1 << (8 * n - 9)))
        return v, v.to_bytes(n, 'big', signed=True)
    if kind.startswith('str'):
        v = ctx.str(name, int(kind[3:]))
        return v, v.encode('utf-8')
    b = ctx.bytes(name, 20)
    return Address(AddressPrefix.CONTRACT if kind == 'cx' else AddressPrefix.EOA, b), \
        (b'\x01' if kind == 'cx' else b'\x00') + b


LENS = [0, 1, 2, 54, 55, 56, (0, 300), (57, 255), (256, 65535), (65536, 1 << 23)]
KINDS = ['int1', 'int2', 'int9', 'str1', 'str2', 'hx', 'cx']


def value(ctx, n):
    return ctx.blob('stored', 1, 64)


@unit(cases=[dict(c=c, name=n, keys=()) for c in ('var', 'array') for n in LENS + KINDS] +
            [dict(c='dict', name=1, keys=(k,)) for k in LENS + KINDS] +
            [dict(c='dict', name=n, keys=(1,)) for n in LENS] +
            [dict(c='dict', name=2, keys=(1, 'str1')), dict(c='dict', name=0, keys=(0, 1)),
             dict(c='dict', name=1, keys=('int1', 2, 'cx')), dict(c='elem', name=2, keys=()),
             dict(c='elem', name=1, keys=())],
      thorough_cases=[dict(c='dict', name=n, keys=(k, m)) for n in (0, 1, 56) for k in LENS + KINDS
                      for m in LENS + KINDS],
      covers=['read', 'written', 'deleted'],
      bounds='container names and entry keys of every supported type, lengths 0 to 2^23 (every content up to 2 bytes, '
             '54 to 56 bytes), nesting up to 3')
def layout(ctx, c, name, keys):
    pyname, rawname = text(ctx, 'name', name)
    ks = [text(ctx, 'key%d' % i, k) for i, k in enumerate(keys)]
    path = rlp(ctx, rawname)
    for _, raw in ks:
        path = path + rlp(ctx, raw)
    n = None
    if c == 'elem':
        # an element of an array: the key is its index
        n = ctx.int('index', 0, 1 << 40)
        path = path + rlp(ctx, sim.enc_int(ctx, n)) if not ctx.symbolic else path + rlp(ctx, minimal(ctx, n))
    want = hashlib.sha3_256(TAG['array' if c == 'elem' else c] + path).digest()
    op = ctx.choice('op', ['read', 'write', 'delete']) if c in ('var', 'dict') else 'read'

    def script(score, _):
        db = score.database
        if c == 'var':
            v = VarDB(pyname, db, value_type=bytes)
            v.get() if op == 'read' else v.set(b'1') if op == 'write' else v.remove()
        elif c in ('array', 'elem'):
            a = ArrayDB(pyname, db, value_type=bytes)
            if c == 'array':
                len(a)
            else:
                a[n]
        else:
            d = DictDB(pyname, db, value_type=bytes, depth=len(ks))
            for k, _ in ks[:-1]:
                d = d[k]
            k = ks[-1][0]
            if op == 'read':
                d[k]
            elif op == 'write':
                d[k] = b'1'
            else:
                d.remove(k)
    scores.CTX[0] = script
    peer = Peer(ctx)
    if c == 'elem':
        # the array says it is long enough
        size = hashlib.sha3_256(TAG['array'] + rlp(ctx, rawname)).digest()
        peer.store[size] = sim.enc_int(ctx, n + 1)
    f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 9, 'run', [],
                    info(ctx))
    ctx.check(f.escaped is None and peer.errors == [] and f.result is not None and f.result[0] == 0, 'success')
    used = f.gets if op == 'read' else [s[0] for s in f.sets]
    ctx.check(len(used) == (2 if c == 'elem' else 1) and ctx.eq(used[-1], want), 'the entry lives at its published key')
    ctx.cover({'read': 'read', 'write': 'written', 'delete': 'deleted'}[op])


def minimal(ctx, v):
    for n in range(1, 8):
        if ctx.And(v >= -(1 << (8 * n - 1)), v < 1 << (8 * n - 1)):
            return v.to_bytes(n, 'big', signed=True)


@unit(cases=[dict(lens=l) for l in [(0,), (1,), (2,), (55,), (56,), (0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1),
                                    (2, 2), (55, 1), (56, 2), (0, 0, 0), (1, 1, 1), (1, 0, 1), (2, 1, 1), (1, 2, 1),
                                    (255, 1), (256, 0)]],
      covers=['decoded'], bounds='paths of up to 3 strings of those lengths, every content')
def unambiguous(ctx, lens):
    """the layout can be parsed back, so two different paths never share a key"""
    items = [ctx.bytes('s%d' % i, n) for i, n in enumerate(lens)]
    s = b''
    for b in items:
        s = s + rlp(ctx, b)
    out, pos = [], 0
    while pos < len(s):
        h = s[pos]
        if h < 0x80:
            out.append(s[pos:pos + 1])
            pos += 1
        elif h <= 0xb7:
            n = int(h) - 0x80
            out.append(s[pos + 1:pos + 1 + n])
            pos += 1 + n
        else:
            k = int(h) - 0xb7
            n = int.from_bytes(s[pos + 1:pos + 1 + k], 'big')
            out.append(s[pos + 1 + k:pos + 1 + k + n])
            pos += 1 + k + n
    ctx.check(ctx.eq(out, items), 'a parsed layout gives back its path')
    ctx.cover('decoded')


@unit(cases=[dict(p=p, d=d) for p in (0, 1, 2, 56) for d in (0, 1, 2)], covers=['ok'],
      bounds='prefixes of up to 56 bytes, nested up to two deep, in front of a variable or a dictionary entry')
def sub_database(ctx, p, d):
    pre = [ctx.bytes('p%d' % i, p) for i in range(2 if d == 2 else 1)]
    name, key = ctx.bytes('name', 2), ctx.bytes('key', 1)

    def script(score, _):
        db = score.database
        for x in pre:
            db = db.get_sub_db(x)
        if d == 0:
            VarDB(name, db, value_type=bytes).get()
        else:
            DictDB(name, db, value_type=bytes)[key]
    scores.CTX[0] = script
    peer = Peer(ctx)
    f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 9, 'run', [],
                    info(ctx))
    s = (TAG['dict'] if d else TAG['var']) + rlp(ctx, name)
    for x in pre:
        s = s + rlp(ctx, x)
    if d:
        s = s + rlp(ctx, key)
    ctx.check(f.result is not None and f.result[0] == 0, 'success')
    ctx.check(len(f.gets) == 1 and ctx.eq(f.gets[0], hashlib.sha3_256(s).digest()),
              'the prefix separates the entries of a sub database')
    ctx.cover('ok')
