"""msgpack (0.6.2 defaults: use_bin_type=False, raw=True) at the level of values.

dump() performs the conversions packing and unpacking would perform, and hands the
result on as one Packet, so that symbolic contents never have to be serialised.
"""
from .core import engine
from .env import Packet
from .values import SymInt, SymBool, SymBytes, SymStr, mk_bool

BIN_MAX = 10 * 1024 * 1024


def norm(o, depth=0):
    t = type(o)
    if o is None or t is bool or t is SymBool:
        return o
    if isinstance(o, int):
        if t is SymInt:
            ok = (o >= -2 ** 63)
            ok2 = (o < 2 ** 64)
            if not ok or not ok2:
                raise OverflowError('Integer value out of range')
            return o
        o = int(o)
        if not -2 ** 63 <= o < 2 ** 64:
            raise OverflowError('Integer value out of range')
        return o
    if isinstance(o, (bytes, bytearray)):
        return o if t is SymBytes else bytes(o)
    if isinstance(o, str):
        return o.encode('utf-8')
    if isinstance(o, (list, tuple)):
        return [norm(x, depth + 1) for x in o]
    if isinstance(o, dict):
        r = {}
        from .models import sx_setitem
        for k, v in o.items():
            sx_setitem(r, norm(k), norm(v, depth + 1))
        return r
    raise TypeError('can\'t serialize %r' % type(o))


def dump(o, stream, **kw):
    stream.write(Packet(norm(o)))


def packb(o, **kw):
    return Packet(norm(o))


def unpackb(p, **kw):
    return p.obj


class Unpacker:
    def __init__(self, stream, **kw):
        self.stream = stream

    def unpack(self):
        p = self.stream.read(4096)
        if not isinstance(p, Packet):
            raise ValueError('Unpack failed: incomplete input')
        return p.obj

    def feed(self, p):
        self.fed = getattr(self, 'fed', []) + [p]

    def __iter__(self):
        while getattr(self, 'fed', None):
            yield self.fed.pop(0).obj


class Packer:
    def __init__(self, **kw):
        pass

    def pack(self, o):
        return Packet(norm(o))
