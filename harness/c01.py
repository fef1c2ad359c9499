"""Integers on the wire and in the state store."""
from symex.api import unit
from pyexec.ipc import proxy as P
from pyexec import utils as U
from pyexec.iconscore.icon_container_db import ContainerUtil

META = {'assumptions': ['integers of at most 512 bits are explored']}

FNS = {'ipc': (P.int_to_bytes, P.bytes_to_int), 'utils': (U.int_to_bytes, U.bytes_to_int)}
RANGES = [(0, 64), (64, 128), (128, 192), (192, 256), (256, 320), (320, 384), (384, 448), (448, 512)]


def be_value(ctx, b, n):
    """independent reading of big-endian two's complement"""
    v = 0
    for i in range(n):
        v = v * 256 + b[i]
    return ctx.ite(b[0] >= 128, v - 256 ** n, v)


@unit(cases=[dict(impl=i, lo=lo, hi=hi) for i in FNS for lo, hi in RANGES], covers=['neg', 'pos'],
      bounds='all integers of at most 512 bits')
def roundtrip(ctx, impl, lo, hi):
    enc, dec = FNS[impl]
    v = ctx.int('v')
    m = ctx.ite(v < 0, -v - 1, v)
    ctx.assume(m >= (0 if lo == 0 else 2 ** lo))
    ctx.assume(m < 2 ** hi)
    b = enc(v)
    n = ctx.len(b)
    ctx.check(n >= 1, 'at least one byte')
    n = int(n)
    ctx.check(be_value(ctx, b, n) == v, 'big-endian two\'s complement of the value')
    if n > 1:
        ctx.check(ctx.And(ctx.Not(ctx.And(b[0] == 0, b[1] < 128)), ctx.Not(ctx.And(b[0] == 255, b[1] >= 128))),
                  'shortest encoding')
    ctx.check(dec(b) == v, 'decode(encode(v)) == v')
    ctx.cover('neg' if v < 0 else 'pos')
    ctx.observe('enc', b)


@unit(cases=[dict(impl=i, n=n) for i in FNS for n in range(0, 65, 4)] + [dict(impl=i, n=n) for i in FNS for n in (1, 2, 3)],
      covers=['ok'], bounds='all byte strings of the given lengths up to 64')
def decode_any_bytes(ctx, impl, n):
    enc, dec = FNS[impl]
    b = ctx.bytes('b', n)
    v = dec(b)
    if n == 0:
        ctx.check(v == 0, 'empty is zero')
    else:
        ctx.check(v == be_value(ctx, b, n), 'value of big-endian two\'s complement bytes')
    ctx.cover('ok')
    ctx.observe('v', v)


@unit(cases=[dict(n=n) for n in range(1, 9)] + [dict(n=n) for n in (16, 32)], covers=['ok'],
      bounds='all integers that fit the length')
def store_int(ctx, n):
    v = ctx.int('v', -2 ** (8 * n - 1), 2 ** (8 * n - 1) - 1)
    b = ContainerUtil.encode_value(v)
    ctx.check(ctx.eq(ContainerUtil.decode_object(b, int), v), 'stored integer reads back')
    ctx.check(ctx.eq(ContainerUtil.encode_key(v), b), 'key encoding of an integer equals its value encoding')
    ctx.check(ctx.len(b) <= n, 'no longer than needed')
    ctx.cover('ok')
