"""Library functions that are modelled instead of being executed from their SSA form."""
import hashlib

import z3

from symex import core
from symex import values as V
from symex.values import SymInt, SymBool, SymBytes, Blob, mk_int, mk_bool, mk_bytes, zint, zbool, s_not
from . import rt
from .rt import (GoPanic, Ptr, Slice, OSlice, Enc, Iface, PyObj, PyErr, GoMap, Unsupported, truth, fit, concr, cmp3,
                 goquo, gorem, s2b, b2s, BOUNDS, interval)

MODULE = 'github.com/icon-project/goloop'
INTR = {}
PREFIX = []


def intr(*names):
    def deco(f):
        for n in names:
            INTR[n] = f
        return f
    return deco


def err(msg):
    return Iface('py', PyErr(msg))


def lst(sl):
    return sl.list() if sl is not None else []


# ------------------------------------------------------------------ math/big
def bi(p):
    if p is None:
        rt.nilderef()
    return p.c[p.i][0]


def big(v):
    return Ptr([[v]], 0)


def setb(z, v):
    if z is None:
        rt.nilderef()
    z.c[z.i][0] = v
    return z


def ediv(a, b):
    """Euclidean quotient (math/big Div)"""
    if type(a) is int and type(b) is int:
        if b == 0:
            raise GoPanic(None, 'division by zero')
        r = a % abs(b)
        return (a - r) // b
    nz(b)
    return mk_int(zint(a) / zint(b))


def emod(a, b):
    if type(a) is int and type(b) is int:
        if b == 0:
            raise GoPanic(None, 'division by zero')
        return a % abs(b)
    nz(b)
    return mk_int(zint(a) % zint(b))


def nz(b):
    if type(b) is int:
        if b == 0:
            raise GoPanic(None, 'division by zero')
        return
    lo, hi = interval(b.t)
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return
    if core.engine().branch(b.t == 0):
        raise GoPanic(None, 'division by zero')


B = '(*math/big.Int).'


def b2(name, f):
    INTR[B + name] = lambda z, x, y: setb(z, f(bi(x), bi(y)))


b2('Add', lambda a, b: a + b)
b2('Sub', lambda a, b: a - b)
b2('Mul', lambda a, b: a * b)
b2('Div', ediv)
b2('Mod', emod)
b2('Quo', goquo)
b2('Rem', gorem)
b2('And', lambda a, b: rt.bitop('&', a, b))
b2('Or', lambda a, b: rt.bitop('|', a, b))
b2('Xor', lambda a, b: rt.bitop('^', a, b))
INTR[B + 'Set'] = lambda z, x: setb(z, bi(x))
INTR[B + 'SetInt64'] = lambda z, x: setb(z, x)
INTR[B + 'SetUint64'] = lambda z, x: setb(z, x)
INTR[B + 'Neg'] = lambda z, x: setb(z, -bi(x))
INTR[B + 'Abs'] = lambda z, x: setb(z, abs(bi(x)))
INTR[B + 'Sign'] = lambda x: cmp3(bi(x), 0) if x is not None else rt.nilderef()
INTR[B + 'Cmp'] = lambda x, y: cmp3(bi(x), bi(y))
INTR[B + 'CmpAbs'] = lambda x, y: cmp3(abs(bi(x)), abs(bi(y)))
INTR[B + 'Int64'] = lambda x: fit(bi(x), 'int64')
INTR[B + 'Uint64'] = lambda x: fit(bi(x), 'uint64')
INTR['math/big.NewInt'] = lambda x: big(x)


def inrange(v, k):
    lo, hi, _ = rt.RANGE[k]
    if type(v) is int:
        return lo <= v <= hi
    return mk_bool(z3.And(v.t >= lo, v.t <= hi))


INTR[B + 'IsInt64'] = lambda x: inrange(bi(x), 'int64')
INTR[B + 'IsUint64'] = lambda x: inrange(bi(x), 'uint64')
INTR[B + 'Lsh'] = lambda z, x, n: setb(z, bi(x) * (1 << concr(n)))
INTR[B + 'Rsh'] = lambda z, x, n: setb(z, ediv(bi(x), 1 << concr(n)))


@intr(B + 'Exp')
def _exp(z, x, y, m):
    a, b = concr(bi(x)), concr(bi(y))
    if m is not None and concr(bi(m)) != 0:
        return setb(z, pow(a, b, abs(concr(bi(m)))))
    return setb(z, a ** b if b > 0 else 1)


@intr(B + 'DivMod')
def _divmod(z, x, y, m):
    a, b = bi(x), bi(y)
    setb(z, ediv(a, b))
    setb(m, emod(a, b))
    return (z, m)


@intr(B + 'QuoRem')
def _quorem(z, x, y, m):
    a, b = bi(x), bi(y)
    setb(z, goquo(a, b))
    setb(m, gorem(a, b))
    return (z, m)


def bitlen(v):
    """bit length of |v|, by splitting on the number of bytes"""
    if type(v) is int:
        return abs(v).bit_length()
    e = core.engine()
    t = z3.If(v.t < 0, -v.t, v.t)
    n = z3.Int(e.fresh_name('bitlen'))
    lo, hi = interval(v.t)
    if lo is None or hi is None:
        raise Unsupported('BitLen of an unbounded integer')
    w = max(abs(lo), abs(hi)).bit_length()
    e.add(z3.And([n >= 0, n <= w] + [(n <= k) == (t < (1 << k)) for k in range(0, w + 1)]))
    BOUNDS[n.decl().name()] = (0, w)
    return mk_int(n)


INTR[B + 'BitLen'] = lambda x: bitlen(bi(x))


@intr(B + 'SetBit')
def _setbit(z, x, i, b):
    v, i, b = bi(x), concr(i), concr(b)
    if type(v) is int:
        return setb(z, v | (1 << i) if b else v & ~(1 << i))
    bit = (v.t / (1 << i)) % 2
    return setb(z, mk_int(z3.If(bit == b, v.t, v.t + ((1 << i) if b else -(1 << i)))))


INTR[B + 'Bit'] = lambda x, i: (bi(x) >> concr(i)) & 1 if type(bi(x)) is int else mk_int(
    (bi(x).t / (1 << concr(i))) % 2)


@intr(B + 'Bytes')
def _bytes(x):
    v = abs(bi(x))
    if type(v) is int:
        n = (v.bit_length() + 7) // 8
        return s2b(v.to_bytes(n, 'big'))
    n = concr(mk_int((zint(bitlen(v)) + 7) / 8))
    return s2b(mk_bytes([(v.t / (1 << (8 * (n - 1 - k)))) % 256 for k in range(n)]))


@intr(B + 'SetBytes')
def _setbytes(z, b):
    if b is None:
        return setb(z, 0)
    s = b2s(b)
    if type(s) is bytes:
        return setb(z, int.from_bytes(s, 'big'))
    items = s.norm()
    if any(type(y) is Blob for y in items):
        raise Unsupported('SetBytes of an opaque encoding')
    r = z3.IntVal(0)
    for y in items:
        r = r * 256 + y
    return setb(z, mk_int(r))


@intr(B + 'String')
def _bstr(x):
    if x is None:
        return b'<nil>'
    return str(concr(bi(x))).encode() if type(bi(x)) is int else b'<symbolic>'


@intr(B + 'Text')
def _btext(x, base):
    v = concr(bi(x))
    if base == 10:
        return str(v).encode()
    if base == 16:
        return (('-' if v < 0 else '') + '%x' % abs(v)).encode()
    raise Unsupported('Text base %r' % base)


@intr(B + 'SetString')
def _setstr(z, s, base):
    try:
        t = bytes(s).decode()
        if t.strip() != t or '_' in t and base != 0 or not t:
            raise ValueError
        setb(z, int(t, base))
    except ValueError:
        return (None, False)
    return (z, True)


R = '(*math/big.Rat).'


def mkrat(a, b):
    import math
    g = math.gcd(a, b) or 1
    if b < 0:
        a, b = -a, -b
    return [a // g, b // g]


INTR['math/big.NewRat'] = lambda a, b: Ptr([mkrat(concr(a), concr(b))], 0)
INTR[R + 'Num'] = lambda x: big(x.c[x.i][0])
INTR[R + 'Denom'] = lambda x: big(x.c[x.i][1])


def nobig(*a):
    raise Unsupported('math/big function that is not modelled')


# ------------------------------------------------------------------ text
def show(w, x):
    if x is None:
        return '<nil>'
    v = x.v if isinstance(x, Iface) else x
    if isinstance(v, PyErr):
        return v.s.decode('utf-8', 'replace')
    if type(v) is bytes:
        return v.decode('utf-8', 'replace')
    if type(v) in (int, bool):
        return str(v).lower()
    return '?'


def sprintf(w, f, args):
    out, ls = [], lst(args)
    f = bytes(f).decode('utf-8', 'replace')
    i, k = 0, 0
    while i < len(f):
        c = f[i]
        if c != '%':
            out.append(c)
            i += 1
            continue
        j = i + 1
        while j < len(f) and f[j] in '+-# 0123456789.':
            j += 1
        if j < len(f) and f[j] == '%':
            out.append('%')
        elif k < len(ls):
            x = ls[k]
            k += 1
            v = x.v if isinstance(x, Iface) else x
            spec = f[i:j + 1]
            if type(v) is int and spec[-1] in 'dxXc' and spec[-1] != 'v':
                try:
                    out.append(spec % v)
                except (TypeError, ValueError):
                    out.append(str(v))
            elif type(v) in (Slice,) and spec[-1] == 'x' and all(type(y) is int for y in v.list()):
                out.append(bytes(v.list()).hex())
            elif type(v) is bytes and spec[-1] == 'x':
                out.append(v.hex())
            else:
                out.append(show(w, x))
        i = j + 1
    return ''.join(out).encode()


def text(w):
    INTR['fmt.Sprintf'] = lambda f, a: sprintf(w, f, a)
    INTR['fmt.Sprint'] = lambda a: ' '.join(show(w, x) for x in lst(a)).encode()
    INTR['fmt.Sprintln'] = lambda a: (' '.join(show(w, x) for x in lst(a)) + '\n').encode()
    INTR['fmt.Errorf'] = lambda f, a: err(sprintf(w, f, a))
    for n in ('Printf', 'Println', 'Print', 'Fprintf', 'Fprintln', 'Fprint'):
        INTR['fmt.' + n] = lambda *a: (0, None)


# ------------------------------------------------------------------ locks, logging
class NoLog(PyObj):
    def __getattr__(self, n):
        if not n.startswith('go_') or n.startswith('__'):
            raise AttributeError(n)
        if n.startswith('go_Panic') or n.startswith('go_Fatal'):
            def f(*a):
                raise GoPanic(err('log panic'), 'log panic')
        elif n == 'go_WithFields':
            def f(*a):
                return Iface('py', self)
        elif n in ('go_GetLevel', 'go_GetConsoleLevel', 'go_GetModuleLevel'):
            def f(*a):
                return 0
        else:
            def f(*a):
                return None
        return f

    def __deepcopy__(self, memo):
        return self


LOG = NoLog()
INTR[MODULE + '/common/log.GlobalLogger'] = lambda: Iface('py', LOG)
INTR[MODULE + '/common/log.New'] = lambda: Iface('py', LOG)
INTR[MODULE + '/common/log.WithFields'] = lambda f: Iface('py', LOG)
TL = '(*%s/service/trace.Logger).' % MODULE
INTR[TL + 'WithTPrefix'] = lambda p, s: p
INTR[TL + 'WithFields'] = lambda p, f: Iface('py', LOG)
PREFIX += [
    ('(*sync.Mutex).', lambda *a: True), ('(*sync.RWMutex).', lambda *a: True),
    ('(*%s/service/trace.Logger).' % MODULE, lambda *a: None),
    ('runtime.', lambda *a: None),
    ('math/big.', nobig), ('(*math/big.', nobig),
]


def _wgadd(p, n):
    st = p.c[p.i]
    st[-1] = (st[-1] or 0) + rt.concr(n)
    if st[-1] < 0:
        raise GoPanic(None, 'negative counter of a WaitGroup')


def _wgwait(p):
    while p.c[p.i][-1]:
        if not WORLD[0].run_others():
            Unsup('all goroutines wait')


INTR['(*sync.WaitGroup).Add'] = _wgadd
INTR['(*sync.WaitGroup).Done'] = lambda p: _wgadd(p, -1)
INTR['(*sync.WaitGroup).Wait'] = _wgwait
WORLD = [None]


@intr('(*sync.Once).Do')
def _once(o, f):
    st = o.c[o.i]
    if st[-1] != 'done':
        st[-1] = 'done'
        f()


def _atomics():
    for t, k in (('Int32', 'int32'), ('Int64', 'int64'), ('Uint32', 'uint32'), ('Uint64', 'uint64'),
                 ('Uintptr', 'uintptr'), ('Pointer', None)):
        def load(p):
            return rt.load(p)

        def store(p, v):
            rt.store(p, v)

        def add(p, d, k=k):
            v = fit(rt.load(p) + d, k)
            rt.store(p, v)
            return v

        def swap(p, v):
            o = rt.load(p)
            rt.store(p, v)
            return o

        def cas(p, o, n):
            if truth(rt.eqv(rt.load(p), o)):
                rt.store(p, n)
                return True
            return False
        A = 'sync/atomic.'
        INTR[A + 'Load' + t], INTR[A + 'Store' + t], INTR[A + 'Swap' + t] = load, store, swap
        INTR[A + 'Add' + t], INTR[A + 'CompareAndSwap' + t] = add, cas


_atomics()


# ------------------------------------------------------------------ integer encodings
IC = MODULE + '/common/intconv.'


def intbytes(v):
    """encoding of an integer: opaque when the integer is symbolic (C24 decides what it stands for)"""
    if type(v) is int:
        n = ((v + (v < 0)).bit_length() + 8) // 8
        return s2b(v.to_bytes(n, 'big', signed=True))
    e = core.engine()
    key = ('gointof', v.t.get_id())
    b = e.memo.get(key)
    if b is None:
        e.keep.append(v.t)
        ln = z3.Int(e.fresh_name('ilen'))
        e.add(z3.And(ln >= 1, ln <= 66))
        BOUNDS[ln.decl().name()] = (1, 66)
        b = e.memo[key] = SymBytes([Blob(e.fresh_name('int'), ln, 'bytes', ('intof', v.t))])
    return OSlice(b)


def intof(b):
    """integer of an opaque encoding; None when the bytes are materialised"""
    if isinstance(b, OSlice):
        items = b.s.norm()
        if len(items) == 1 and type(items[0]) is Blob and items[0].info is not None and items[0].info[0] == 'intof':
            return mk_int(items[0].info[1])
        raise Unsupported('integer of an opaque encoding')
    return None


def codecs(w):
    real = w.real

    def big2b(i):
        return s2b(b'\0') if i is None else intbytes(bi(i))

    def setbytes(i, b):
        v = intof(b)
        if v is None:
            return real(IC + 'BigIntSetBytes')(i, b)
        return setb(i, v)

    def safe64(b):
        v = intof(b)
        if v is None:
            return real(IC + 'SafeBytesToInt64')(b)
        if truth(inrange(v, 'int64')):
            return (v, True)
        return (0, False)

    if not w.state0.get('real_intconv'):
        INTR[IC + 'BigIntToBytes'] = big2b
        INTR[IC + 'Int64ToBytes'] = lambda v: intbytes(v)
        INTR[IC + 'BigIntSetBytes'] = setbytes
        INTR[IC + 'SafeBytesToInt64'] = safe64

    # ------------------------------------------------------------ codec
    C = MODULE + '/common/codec.'

    class Encoder(PyObj):
        def __init__(self):
            self.out = []

        def go_Encode(self, o):
            self.out.append(enc(o))
            return None

        def go_EncodeMulti(self, objs):
            for o in lst(objs):
                self.out.append(enc(o))
            return None

        def go_EncodeListOf(self, objs):
            self.out.append([enc(o) for o in lst(objs)])
            return None

        def go_EncodeList(self):
            e = Encoder()
            self.out.append(e.out)
            return (Iface('py', e), None)

    def enc(o):
        if o is None:
            return None
        t, v = o.t, o.v
        if t == 'py':
            raise Unsupported('encoding of a modelled object')
        k = w.kind(t)
        if k in ('ptr', 'slice', 'map') and v is None:
            return None
        tn = w.tname(t)
        if tn == '*math/big.Int':
            return ('i', bi(v))
        if tn == 'math/big.Int':
            return ('i', v[0])
        if w.has_method(t, 'RLPEncodeSelf'):
            e = Encoder()
            r = w.invoke(o, 'RLPEncodeSelf', '', Iface('py', e))
            if r is not None:
                raise GoPanic(r, 'encoding failed')
            return e.out[0] if len(e.out) == 1 else ['multi', e.out]
        if k != 'ptr' and w.has_method(w.ptrto(t), 'RLPEncodeSelf'):
            return enc(Iface(w.ptrto(t), Ptr([rt.copyv(v) if type(v) is list else v], 0)))
        if k in rt.RANGE:
            return ('i', v)
        if k == 'bool':
            return ('i', v if type(v) is bool and int(v) else mk_int(z3.If(zbool(v), 1, 0)))
        if k == 'str':
            return ('b', v)
        if k == 'slice':
            et = w.under(t)['elem']
            if w.kind(et) == 'uint8':
                return ('e', v) if isinstance(v, Enc) else ('b', b2s(v))
            return [enc(x if w.kind(et) == 'iface' else Iface(et, x)) for x in rt.elems(v)]
        if k == 'array':
            et = w.under(t)['elem']
            if w.kind(et) == 'uint8':
                return ('b', mk_bytes([x if type(x) is int else x.t for x in v]))
            return [enc(x if w.kind(et) == 'iface' else Iface(et, x)) for x in v]
        if k == 'ptr':
            et = w.under(t)['elem']
            x = v.c[v.i]
            return enc(x if w.kind(et) == 'iface' else Iface(et, x))
        if k == 'struct':
            return [enc(x if w.kind(f[1]) == 'iface' else Iface(f[1], x)) for f, x in zip(w.under(t)['fields'], v)
                    if f[0][:1].isupper()]
        raise Unsupported('encoding of ' + tn)

    def tobytes(tr):
        if tr is None:
            return None
        if type(tr) is list:
            raise GoPanic(None, 'bytes of a list')
        if tr[0] == 'e':
            return tr[1]
        if tr[0] == 'b':
            return s2b(tr[1])
        return intbytes(tr[1])

    def toint(tr):
        if tr is None:
            return 0
        if type(tr) is list:
            raise DecodeError
        if tr[0] == 'i':
            return tr[1]
        if tr[0] == 'e':
            raise Unsupported('integer of an encoding')
        s = tr[1]
        if type(s) is bytes:
            return int.from_bytes(s, 'big', signed=True)
        items = s.norm()
        if len(items) == 1 and type(items[0]) is Blob and items[0].info and items[0].info[0] == 'intof':
            return mk_int(items[0].info[1])
        z = big(0)
        real(IC + 'BigIntSetBytes')(z, s2b(s))
        return bi(z)

    class DecodeError(Exception):
        pass

    class DecodeEnd(DecodeError):
        pass

    class Decoder(PyObj):
        def __init__(self, items):
            self.items = items
            self.k = 0

        def nxt(self):
            if self.k >= len(self.items):
                raise DecodeEnd
            self.k += 1
            return self.items[self.k - 1]

        def guard(self, f):
            try:
                return f()
            except DecodeEnd:
                return w.eof()
            except DecodeError:
                return err('decoding failed')

        def go_Decode(self, o):
            return self.guard(lambda: dec(o, self.nxt()))

        def go_DecodeAll(self, objs):
            return self.guard(lambda: [dec(o, self.nxt()) for o in lst(objs)] and None)

        def go_DecodeMulti(self, objs):
            n = 0
            try:
                for o in lst(objs):
                    dec(o, self.nxt())
                    n += 1
            except DecodeError:
                return (n, w.eof())
            return (n, None)

        def go_DecodeBytes(self):
            try:
                return (tobytes(self.nxt()), None)
            except DecodeError:
                return (None, w.eof())

        def go_DecodeList(self):
            try:
                x = self.nxt()
            except DecodeError:
                return (None, w.eof())
            if type(x) is not list:
                return (None, err('not a list'))
            return (Iface('py', Decoder(x)), None)

        def go_DecodeListOf(self, objs):
            def f():
                x = self.nxt()
                if type(x) is not list:
                    raise DecodeError
                d = Decoder(x)
                for o in lst(objs):
                    dec(o, d.nxt())
            return self.guard(f)

        def go_Skip(self, n):
            self.k += concr(n)
            return None

    def dec(o, tr):
        """into the pointer o (an interface value)"""
        t, p = o.t, o.v
        et = w.under(t)['elem']
        tn = w.tname(et)
        k = w.kind(et)
        if tn == 'math/big.Int':
            setb(p, toint(tr))
            return
        if w.has_method(t, 'RLPDecodeSelf'):
            d = Decoder(tr[1] if type(tr) is list and tr[:1] == ['multi'] else [tr])
            r = w.invoke(o, 'RLPDecodeSelf', '', Iface('py', d))
            if r is not None:
                raise DecodeError
            return
        if k == 'ptr':
            if tr is None:
                rt.store(p, None)
                return
            x = w.under(et)['elem']
            n = Ptr([w.zerof(x)()], 0)
            dec(Iface(et, n), tr)
            rt.store(p, n)
            return
        if k in rt.RANGE:
            v = toint(tr)
            if not truth(inrange(v, k)):
                raise DecodeError
            rt.store(p, v)
            return
        if k == 'bool':
            rt.store(p, s_not(toint(tr) == 0))
            return
        if k == 'str':
            b = tobytes(tr)
            rt.store(p, b'' if b is None else b2s(b))
            return
        if k == 'slice':
            x = w.under(et)['elem']
            if w.kind(x) == 'uint8':
                rt.store(p, tobytes(tr))
                return
            if tr is None:
                rt.store(p, None)
                return
            out = []
            for y in tr:
                n = Ptr([w.zerof(x)()], 0)
                dec(Iface(w.ptrto(x), n), y)
                out.append(n.c[0])
            rt.store(p, Slice(out, 0, len(out), len(out)))
            return
        if k == 'struct':
            if type(tr) is not list:
                raise DecodeError
            st = p.c[p.i]
            fs = [(i, f) for i, f in enumerate(w.under(et)['fields']) if f[0][:1].isupper()]
            for (i, f), y in zip(fs, tr):
                dec(Iface(w.ptrto(f[1]), Ptr(st, i)), y)
            return
        raise Unsupported('decoding into ' + tn)

    def marshal(v):
        tr = enc(v)
        e = core.engine() if core.ENGINE is not None else None
        if e is None:
            return Enc(tr, b'\0encoded')
        ln = z3.Int(e.fresh_name('elen'))
        e.add(ln >= 1)
        BOUNDS[ln.decl().name()] = (1, 1 << 31)
        b = Blob(e.fresh_name('enc'), ln, 'bytes')
        r = rt.ENCS[b.name] = Enc(tr, SymBytes([b]))
        return r

    def unmarshal(b, v):
        if not isinstance(b, Enc):
            raise Unsupported('decoding of raw bytes')
        try:
            dec(v, b.tree)
        except DecodeError:
            return (None, err('decoding failed'))
        return (s2b(b''), None)

    def must_un(b, v):
        r, x = unmarshal(b, v)
        if x is not None:
            raise GoPanic(x, 'decoding failed')
        return r

    W = '(*%s/common/codec.bytesWrapper).' % MODULE
    if not w.state0.get('real_codec'):
        INTR[W + 'MarshalToBytes'] = lambda c, v: (marshal(v), None)
        INTR[W + 'MustMarshalToBytes'] = lambda c, v: marshal(v)
        INTR[W + 'UnmarshalFromBytes'] = lambda c, b, v: unmarshal(b, v)
        INTR[W + 'MustUnmarshalFromBytes'] = lambda c, b, v: must_un(b, v)
        INTR[C + 'MarshalToBytes'] = lambda v: (marshal(v), None)
        INTR[C + 'MustMarshalToBytes'] = lambda v: marshal(v)
        INTR[C + 'UnmarshalFromBytes'] = lambda b, v: unmarshal(b, v)
        INTR[C + 'MustUnmarshalFromBytes'] = lambda b, v: must_un(b, v)

    # ------------------------------------------------------------ hashes
    def sha(alg):
        def f(b):
            s = b2s(b) if b is not None else b''
            if type(s) is not bytes:
                raise Unsupported('hash of symbolic bytes')
            return s2b(alg(s).digest())
        return f
    INTR[MODULE + '/common/crypto.SHA3Sum256'] = sha(hashlib.sha3_256)
    INTR[MODULE + '/common/crypto.SHASum256'] = sha(hashlib.sha256)

    def sum256(b):
        s = b2s(b) if b is not None else b''
        if type(s) is not bytes:
            raise Unsupported('hash of symbolic bytes')
        return list(hashlib.sha3_256(s).digest())
    for n in ('golang.org/x/crypto/sha3.Sum256', 'crypto/sha3.Sum256'):
        INTR[n] = sum256

    # ------------------------------------------------------------ tries as maps
    class Store(PyObj):
        def __init__(self, d=None):
            self.d = dict(d or {})

        def key(self, k):
            if isinstance(k, Enc):
                n = toint(k.tree) if type(k.tree) is tuple and k.tree[0] == 'i' else None
                if type(n) is not int or not 0 <= n < 128:
                    raise Unsupported('an encoding as key of a store')
                return bytes([n])
            s = b2s(k) if k is not None else b''
            if type(s) is not bytes:
                raise Unsupported('symbolic key of a store')
            return s

        def go_Get(self, k):
            return (self.d.get(self.key(k)), None)

        def go_Set(self, k, v):
            k = self.key(k)
            old = self.d.get(k)
            if v is None or not isinstance(v, OSlice) and v.len == 0:
                return (None, err('empty value'))
            self.d[k] = v if isinstance(v, OSlice) else s2b(b2s(v))
            return (old, None)

        def go_Delete(self, k):
            return (self.d.pop(self.key(k), None), None)

        def go_GetSnapshot(self):
            return Iface('py', Store(self.d))

        def go_Reset(self, s):
            self.d = dict(s.v.d)
            return None

        def go_Empty(self):
            return not self.d

        def go_Hash(self):
            if not self.d:
                return None
            return Enc(('store', self.d), b'h' * 32)

        def go_Flush(self):
            return None

        def go_ClearCache(self):
            return None

        def go_Resolve(self, b):
            return None

        def go_Database(self):
            return None

        def go_Iterator(self):
            return Iface('py', StoreIter(self.d))

        def go_Equal(self, o, exact):
            return same_store(self.d, o.v.d)

    class StoreIter(PyObj):
        def __init__(self, d):
            self.d = d
            self.ks = sorted(d)

        def go_Has(self):
            return bool(self.ks)

        def go_Next(self):
            self.ks.pop(0)
            return None

        def go_Get(self):
            if not self.ks:
                return (None, None, err('end of the store'))
            return (self.d[self.ks[0]], s2b(self.ks[0]), None)

    for n in ('Filter', 'GetProof', 'Prove', 'IteratorFromPos'):
        setattr(Store, 'go_' + n, lambda self, *a, n=n: Unsup(n + ' of a store'))

    def same_store(a, b):
        r = a.keys() == b.keys()
        for k in a:
            if not r:
                return False
            r = rt.conj(r, same_bytes(a[k], b[k]))
        return r

    class ObjStore(Store):
        """a trie of objects, kept as they are"""
        def go_Set(self, k, v):
            k = self.key(k)
            old = self.d.get(k)
            self.d[k] = v
            return (old, None)

        def go_GetSnapshot(self):
            return Iface('py', ObjStore(self.d))

        def go_Hash(self):
            if not self.d:
                return None
            return Enc(('objects', dict(self.d)), b'h' * 32)

        def go_Equal(self, o, exact):
            if self.d.keys() != o.v.d.keys():
                return False
            for k in self.d:
                a, b = self.d[k], o.v.d[k]
                if not truth(w.invoke(a, 'Equal', '', b)):
                    return False
            return True

    def same_bytes(a, b):
        if isinstance(a, Enc) and isinstance(b, Enc):
            return same_tree(a.tree, b.tree)
        if isinstance(a, Enc) or isinstance(b, Enc):
            raise Unsupported('comparing an encoding')
        x, y = b2s(a), b2s(b)
        if isinstance(a, OSlice) and isinstance(b, OSlice):
            return intof(a) == intof(b)
        return x == y

    def same_tree(x, y):
        if x is None or y is None:
            return x is y
        if type(x) is list or type(y) is list:
            if type(x) is not type(y) or len(x) != len(y):
                return False
            r = True
            for p, q in zip(x, y):
                r = rt.conj(r, same_tree(p, q))
                if r is False:
                    return False
            return r
        if x[0] == 'store' or y[0] == 'store':
            return x[0] == y[0] and same_store(x[1], y[1])
        if x[0] == 'objects' or y[0] == 'objects':
            return x[0] == y[0] and ObjStore(x[1]).go_Equal(Iface('py', ObjStore(y[1])), False)
        if x[0] == 'e' or y[0] == 'e':
            return x[0] == y[0] and same_tree(x[1].tree, y[1].tree)
        if x[0] == 'i' or y[0] == 'i':
            return toint(x) == toint(y)
        return x[1] == y[1]
    w.same_bytes = same_bytes
    T = MODULE + '/common/trie/trie_manager.'

    def from_hash(db, h):
        if h is None:
            return Iface('py', Store())
        if isinstance(h, Enc) and type(h.tree) is tuple and h.tree[0] == 'store':
            return Iface('py', Store(h.tree[1]))
        raise Unsupported('store of a hash')
    INTR[T + 'NewImmutable'] = from_hash
    INTR[T + 'NewMutable'] = from_hash
    def objects(db, h, t):
        if h is None:
            return Iface('py', ObjStore())
        if isinstance(h, Enc) and type(h.tree) is tuple and h.tree[0] == 'objects':
            return Iface('py', ObjStore(h.tree[1]))
        raise Unsupported('store of a hash')
    INTR[T + 'NewMutableForObject'] = objects
    INTR[T + 'NewImmutableForObject'] = objects
    INTR[T + 'NewMutableFromImmutableForObject'] = lambda o: Iface('py', ObjStore(o.v.d))
    INTR[T + 'NewMutableFromImmutable'] = lambda o: Iface('py', Store(o.v.d))


# ------------------------------------------------------------------ std bits
def std(w):
    INTR['reflect.ValueOf'] = lambda x: [x]
    INTR['(reflect.Value).IsNil'] = lambda v: v[0] is None or v[0].v is None
    INTR['bytes.Equal'] = lambda a, b: beq(w, a, b)
    INTR['internal/bytealg.IndexByteString'] = lambda s, c: bytes(s).find(bytes([concr(c)]))
    INTR['internal/bytealg.IndexByte'] = lambda s, c: bytes(b2s(s)).find(bytes([concr(c)]))
    INTR['internal/bytealg.CountString'] = lambda s, c: bytes(s).count(bytes([concr(c)]))
    INTR['internal/bytealg.Count'] = lambda s, c: bytes(b2s(s)).count(bytes([concr(c)]))
    INTR['internal/bytealg.IndexString'] = lambda s, t: bytes(s).find(bytes(t))
    INTR['internal/bytealg.Equal'] = lambda a, b: beq(w, a, b)
    INTR['internal/bytealg.Compare'] = lambda a, b: bcmp(b2s(a) if a is not None else b'',
                                                        b2s(b) if b is not None else b'')
    INTR['bytes.Compare'] = INTR['internal/bytealg.Compare']
    INTR['strings.Compare'] = bcmp
    INTR['internal/bytealg.CompareString'] = bcmp
    INTR['strings.Contains'] = lambda a, b: bytes(b) in bytes(a)
    INTR['strings.Index'] = lambda a, b: bytes(a).find(bytes(b))
    INTR['errors.New'] = lambda s: err(s)
    class RType(PyObj):
        def __init__(self, t):
            self.t = t

        def go_Elem(self):
            return Iface('py', RType(w.under(self.t)['elem']))
    INTR['reflect.TypeOf'] = lambda x: None if x is None else Iface('py', RType(x.t))
    # strings.Builder: its second field holds what has been written, as a string
    def bstr(p):
        st = p.c[p.i]
        return st[1] if st[1] is not None else b''

    def bput(p, x):
        p.c[p.i][1] = bstr(p) + x
    SB = '(*strings.Builder).'
    INTR[SB + 'String'] = bstr
    INTR[SB + 'Len'] = lambda p: len(bstr(p))
    INTR[SB + 'Grow'] = lambda p, n: None
    INTR[SB + 'Reset'] = lambda p: p.c[p.i].__setitem__(1, None)
    INTR[SB + 'WriteString'] = lambda p, x: (bput(p, x), (len(x), None))[1]
    INTR[SB + 'Write'] = lambda p, x: (bput(p, b2s(x) if x is not None else b''), (rt.slen(x), None))[1]
    INTR[SB + 'WriteByte'] = lambda p, x: bput(p, bytes([rt.concr(x)]))
    INTR[SB + 'WriteRune'] = lambda p, x: (bput(p, chr(rt.concr(x)).encode()), (len(chr(rt.concr(x)).encode()), None))[1]
    INTR['strings.Join'] = lambda xs, sep: bytes(sep).join(bytes(x) for x in (xs.list() if xs is not None else []))
    # no time passes, no timer fires
    INTR['time.Now'] = lambda: [0, 0, None]
    INTR['time.Since'] = lambda t: 0
    INTR['time.Sleep'] = lambda d: w.run_others() and None
    INTR['(time.Time).Sub'] = lambda t, u: 0
    INTR['time.After'] = lambda d: w.ns['Chan'](1)
    INTR['sort.Slice'] = lambda x, less: sortslice(w, x, less)
    INTR['sort.SliceStable'] = lambda x, less: sortslice(w, x, less)
    for n in ('Ints', 'Strings'):
        INTR['sort.' + n] = sortplain
    INTR['slices.Sort'] = sortplain

    def poolget(p):
        e = w.pools.get((id(p.c), p.i))
        if e and e[1]:
            return e[1].pop()
        new = p.c[p.i][-1]
        return new() if new is not None else None

    def poolput(p, x):
        w.pools.setdefault((id(p.c), p.i), (p.c, []))[1].append(x)
    INTR['(*sync.Pool).Get'] = poolget
    INTR['(*sync.Pool).Put'] = poolput
    WORLD[0] = w


def Unsup(what):
    raise Unsupported(what)


def sortplain(x):
    if x is None:
        return
    import functools
    ls = x.list()
    ls.sort(key=functools.cmp_to_key(lambda a, b: -1 if truth(a < b) else 1 if truth(b < a) else 0))
    x.a[x.off:x.off + x.len] = ls


def sortslice(w, x, less):
    """insertion sort through the closure, which looks at the slice"""
    s = x.v
    if s is None:
        return
    a, o, n = s.a, s.off, s.len
    for i in range(1, n):
        j = i
        while j > 0 and truth(less(j, j - 1)):
            a[o + j], a[o + j - 1] = a[o + j - 1], a[o + j]
            j -= 1


def beq(w, a, b):
    if isinstance(a, Enc) and isinstance(b, Enc) or isinstance(a, OSlice) and isinstance(b, OSlice):
        if a is b or a.s is b.s:
            return True
        return w.same_bytes(a, b)
    return (b2s(a) if a is not None else b'') == (b2s(b) if b is not None else b'')


def bcmp(a, b):
    if type(a) is bytes and type(b) is bytes:
        return (a > b) - (a < b)
    if truth(a == b):
        return 0
    return -1 if truth(a < b) else 1


# ------------------------------------------------------------------ the harness API
def symapi(w):
    S = MODULE + '/zz/sym.'

    def reg(lo, hi):
        BOUNDS[w.ctx.inputs[-1][0]] = (lo, hi)

    def s_int(n, lo, hi):
        v = w.ctx.int(n.decode(), lo, hi)
        if lo != hi:
            reg(lo, hi)
        return v

    def s_big(n, lo, bits):
        hi = (1 << bits) - 1
        v = w.ctx.int(n.decode(), lo, hi)
        reg(lo, hi)
        return big(v)

    def s_bytes(n, k):
        s = w.ctx.bytes(n.decode(), k)
        for i in range(k):
            BOUNDS['%s[%d]' % (w.ctx.inputs[-1][0], i)] = (0, 255)
        return s2b(s)

    def s_arg(n):
        v = w.args[n.decode()]
        return int(v)

    def panics(f):
        n = len(rt.PANICS)
        try:
            f()
        except GoPanic:
            del rt.PANICS[n:]
            return True
        return False

    def ordered(f):
        was, rt.ORDERS = rt.ORDERS, False
        try:
            f()
        finally:
            rt.ORDERS = was

    def plain(x):
        if x is None:
            return None
        v = x.v
        if isinstance(v, PyErr):
            return 'error'
        if x.t == 'py':
            return None
        tn = w.tname(x.t)
        if tn == '*math/big.Int':
            return None if v is None else bi(v)
        if w.kind(x.t) == 'slice':
            if v is None:
                return ''           # the native side prints nil bytes as an empty string
            return b2s(v) if w.kind(w.under(x.t)['elem']) == 'uint8' else ['~']
        if type(v) is bytes:
            return v.decode('utf-8', 'replace')
        if w.kind(x.t) in rt.RANGE or w.kind(x.t) == 'bool':
            if tn in ('int', 'int64', 'bool', 'string'):
                return v
        if w.has_method(x.t, 'Error'):
            return 'error'
        return ['~']

    I = {
        'Symbolic': lambda: True,
        'Arg': s_arg,
        'Int': s_int,
        'Big': s_big,
        'Bool': lambda n: w.ctx.bool(n.decode()),
        'Flag': lambda n: w.ctx.flag(n.decode()),
        'Choice': lambda n, k: w.ctx.choice(n.decode(), list(range(concr(k)))),
        'Bytes': s_bytes,
        'Assume': lambda c: w.ctx.assume(c),
        'Check': lambda c, m: w.ctx.check(c, m.decode()),
        'Fail': lambda m: w.ctx.fail(m.decode()),
        'Cover': lambda m: w.ctx.cover(m.decode()),
        'And': lambda xs: w.ctx.And(*lst(xs)),
        'Or': lambda xs: w.ctx.Or(*lst(xs)),
        'Implies': lambda a, b: w.ctx.Implies(a, b),
        'IfBig': lambda c, a, b: big(w.ctx.ite(c, bi(a), bi(b))),
        'IfInt': lambda c, a, b: w.ctx.ite(c, a, b),
        'Observe': lambda n, v: w.ctx.observe(n.decode(), plain(v)),
        'Panics': panics,
        'Ordered': ordered,
    }
    for n, f in I.items():
        INTR[S + n] = f


def files():
    """a scratch directory that holds nothing"""
    INTR['os.MkdirTemp'] = lambda d, p: (b'/scratch', None)
    INTR['os.RemoveAll'] = lambda p: None
    INTR['os.Stat'] = lambda p: (None, None)
    INTR['os.MkdirAll'] = lambda p, m: None
    INTR['os.IsNotExist'] = lambda e: False
    INTR['init:os'] = lambda w: None


def install(w):
    from . import jsonm
    text(w)
    codecs(w)
    std(w)
    symapi(w)
    jsonm.install(w)
    files()
