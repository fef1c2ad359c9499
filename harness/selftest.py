"""Engine self-test (not a property): each model of a Python operation against CPython."""
import collections
import enum
import hashlib
import json
import re
import struct
from symex.api import unit


class Color(enum.Enum):
    RED = 'red'
    BLUE = 'blue'


class Fl(enum.IntFlag):
    A = 1
    B = 2


def attempt(f):
    try:
        return ['ok', f()]
    except Exception as e:
        return ['exc', type(e).__name__]


INT = {
    'floordiv': lambda a, b: a // b if b else None, 'mod': lambda a, b: a % b if b else None,
    'divmod3': lambda a, b: [a // 3, a % 3, a // -3, a % -3], 'and': lambda a, b: a & 0xF0,
    'or': lambda a, b: a | 5, 'xor': lambda a, b: a ^ 7, 'shl': lambda a, b: a << 3, 'shr': lambda a, b: a >> 2,
    'neg': lambda a, b: [-a, ~a, abs(a)], 'minmax': lambda a, b: [min(a, b), max(a, b)],
    'cmp': lambda a, b: [a < b, a <= b, a == b, a != b], 'hex': lambda a, b: hex(a),
    'str': lambda a, b: len(str(1)), 'bits': lambda a, b: a.bit_length(),
    'bool': lambda a, b: bool(a), 'int': lambda a, b: int(a), 'fdiv': lambda a, b: int(a / 256),
    'range': lambda a, b: [i for i in range(a % 4)], 'isin': lambda a, b: a in (1, 5, b),
    'pow': lambda a, b: a ** 2, 'div0': lambda a, b: a // b, 'idx': lambda a, b: [10, 20, 30][a % 3],
    'fmt': lambda a, b: f'{a:x}' if a >= 0 else '', 'isinst': lambda a, b: [isinstance(a, int), isinstance(a, bool), type(a) is int, type(a) == bool],
    'tb': lambda a, b: a.to_bytes(2, 'big', signed=True), 'tb1': lambda a, b: a.to_bytes(1, 'big'),
    'tbl': lambda a, b: a.to_bytes(3, 'little', signed=True),
    'pack': lambda a, b: struct.pack('>BH', a, b), 'chr': lambda a, b: chr(a),
    'bytes1': lambda a, b: bytes([a]), 'sum': lambda a, b: sum([a, b, 1]), 'sorted': lambda a, b: sorted([a, b, 0]),
    'flag': lambda a, b: bool(a & Fl.B), 'anyall': lambda a, b: [any([a > 0, b > 0]), all([a > 0, b > 0])],
    'dict': lambda a, b: {1: 'x', 2: 'y'}.get(a), 'dset': lambda a, b: dset(a, b), 'mul': lambda a, b: a * b,
    'bm': lambda a, b: (a + (a < 0)), 'rev': lambda a, b: [x for x in reversed([a, b])],
    'bcast': lambda a, b: int(a > b) + True, 'zero': lambda a, b: bytes(a % 4),
}


def dset(a, b):
    d = {}
    d[a] = 1
    d[b] = 2
    d[3] = d.get(3, 0) + 5
    if a in d:
        d.pop(a)
    return [len(d), sorted(d.values())]


@unit(cases=[dict(op=o) for o in INT], covers=['ok'], witness=12)
def ints(ctx, op):
    a = ctx.int('a', -300, 300)
    b = ctx.int('b', -20, 20)
    r = attempt(lambda: INT[op](a, b))
    ctx.observe(op, r)
    ctx.cover('ok')


STR = {
    'len': lambda s: len(s), 'enc': lambda s: s.encode(), 'up': lambda s: [s.upper(), s.lower()],
    'split': lambda s: s.split(','), 'split1': lambda s: s.split(',', 1), 'splitw': lambda s: s.split(),
    'strip': lambda s: [s.strip(), s.lstrip(), s.rstrip()], 'sw': lambda s: [s.startswith('0x'), s.endswith('a'), s.startswith(('a', 'b'))],
    'find': lambda s: [s.find('a'), s.rfind('a'), s.count('a')], 'index': lambda s: s.index('x'),
    'int10': lambda s: int(s), 'int16': lambda s: int(s, 16), 'int0': lambda s: int(s, 0),
    'fromhex': lambda s: bytes.fromhex(s), 'cat': lambda s: 'a' + s + 'b', 'slice': lambda s: [s[0:1], s[1:], s[-1:], s[:-1]],
    'eq': lambda s: [s == 'abc', s != '0x', s < 'b'], 'in': lambda s: [s in ('a', 'abc', '0x1'), 'a' in s, s in 'abcabc'],
    're1': lambda s: re.match('[0-9a-f]+', s) is not None, 're2': lambda s: len(re.match('[0-9a-f]*', s).group(0)),
    're3': lambda s: re.fullmatch(r'-?\d+', s) is not None, 're4': lambda s: re.search(r'a,?x', s) is not None,
    'idx': lambda s: [s[0], s[-1]], 'iter': lambda s: [c for c in s], 'join': lambda s: s.join(['p', 'q', 'r']),
    'enum': lambda s: Color('red' if s == 'abc' else s).value, 'mul': lambda s: s * 2, 'dig': lambda s: s.isdigit(),
    'fstr': lambda s: f'<{s}>', 'fmt': lambda s: '<{}>'.format(s), 'pct': lambda s: '<%s>' % s,
    'dict': lambda s: {'abc': 1, '0x': 2}.get(s, 0), 'getattr': lambda s: attempt(lambda: getattr(Color, s)), 'ord': lambda s: ord(s[0]),
    'isinst': lambda s: [isinstance(s, str), type(s) is str, isinstance(s, bytes)], 'hash': lambda s: hash(s) == hash(s),
    'list': lambda s: list(s), 'bool': lambda s: bool(s), 'title': lambda s: s.title() if s.isdigit() else 0,
}


@unit(cases=[dict(op=o, n=n) for o in STR for n in (0, 1, 2, 3)], covers=['ok'], witness=12)
def strs(ctx, op, n):
    s = ctx.str('s', n, alphabet='0xab19_-+, cF\n')
    r = attempt(lambda: STR[op](s))
    ctx.observe(op, r)
    ctx.cover('ok')


@unit(cases=[dict(n=n) for n in (1, 2)], covers=['ok'], witness=12)
def unicode(ctx, n):
    s = ctx.str('s', n)
    b = s.encode('utf-8')
    ctx.check(ctx.eq(b.decode('utf-8'), s), 'utf8')
    ctx.observe('b', b)
    ctx.cover('ok')


BYT = {
    'dec': lambda b: b.decode('utf-8'), 'hex': lambda b: b.hex(), 'from': lambda b: int.from_bytes(b, 'big', signed=True),
    'froml': lambda b: int.from_bytes(b, 'little'), 'idx': lambda b: b[0], 'slice': lambda b: [b[1:], b[:1], b[-2:]],
    'eq': lambda b: [b == b'\x00\x01', b < b'a'], 'cat': lambda b: b'x' + b + b'y', 'iter': lambda b: [x for x in b],
    'in': lambda b: [0 in b, b'\x00' in b, b in (b'', b'\x01')], 'unpack': lambda b: list(struct.unpack('>H', b)),
    'join': lambda b: b'|'.join([b, b]), 'sw': lambda b: b.startswith(b'\x01'), 'sha': lambda b: hashlib.sha3_256(b).digest() == hashlib.sha3_256(b + b'').digest(),
    'dict': lambda b: {b'\x00': 1, b'': 2}.get(b), 'bytes': lambda b: bytes(b), 'ba': lambda b: len(bytes(b)),
    'strip': lambda b: b.lstrip(b'\x00'), 'hexint': lambda b: int(b.hex(), 16), 'rt': lambda b: bytes.fromhex(b.hex()) == b,
    'cls': lambda b: [isinstance(b, bytes), isinstance(b, (str, int))],
}


@unit(cases=[dict(op=o, n=n) for o in BYT for n in (0, 1, 2, 3)], covers=['ok'], witness=12)
def byts(ctx, op, n):
    b = ctx.bytes('b', n)
    r = attempt(lambda: BYT[op](b))
    ctx.observe(op, r)
    ctx.cover('ok')


class Obj:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Obj) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __str__(self):
        return f'Obj({self.v})'


@unit(covers=['ok'], witness=12)
def objs(ctx):
    a, b = ctx.bytes('a', 1), ctx.bytes('b', 1)
    x, y = Obj(a), Obj(b)
    d = collections.OrderedDict()
    d[a] = 1
    d[b] = 2
    ctx.observe('n', len(d))
    ctx.observe('eq', x == y)
    ctx.observe('s', a in d)
    ctx.observe('s2', b'\x05' in d)
    d.update({b'\x05': 3})
    ctx.observe('n2', len(d))
    ctx.observe('v', [v for v in d.values()])
    ctx.observe('items', [[k, v] for k, v in d.items()])
    e = d.pop(b'\x05', None)
    ctx.observe('e', e)
    if a in d:
        del d[a]
    ctx.observe('n3', [len(d), d.get(b, 9)])
    ctx.cover('ok')


def blobs_body(ctx, x, y):
    z = b'ab' + x + y
    ctx.check(ctx.len(z) == 2 + ctx.len(x) + ctx.len(y), 'len')
    ctx.check(ctx.eq(z[2:2 + ctx.len(x)], x), 'slice back')
    ctx.check(ctx.eq(z[:2], b'ab'), 'head')
    ctx.check(ctx.Implies(ctx.eq(x, y), ctx.len(x) == ctx.len(y)), 'eq len')


@unit(covers=['ok'], witness=6)
def blobs(ctx):
    x, y = ctx.blob('x', 0, 300), ctx.blob('y', 0, 300)
    blobs_body(ctx, x, y)
    ctx.observe('l', ctx.len(x + y))
    ctx.cover('ok')
