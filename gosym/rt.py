"""Go values and operations for symbolic execution.

Integers are mathematical integers kept inside the range of their type by `fit` (wrap-around is a
path of its own when it is feasible).  Strings are bytes/SymBytes.  Structs and arrays are Python
lists that are copied when Go copies them and updated in place when Go stores into them.
"""
import z3

from symex import core
from symex import values as V
from symex.api import HarnessError
from symex.values import SymInt, SymBool, SymBytes, mk_int, mk_bool, mk_bytes, zint, zbool, s_not


class Unsupported(HarnessError):
    pass


class GoPanic(Exception):
    def __init__(self, val, what=''):
        Exception.__init__(self, what or repr(val))
        self.val = val
        self.what = what
        self.recovered = False


class Exit(Exception):
    pass


# ------------------------------------------------------------------ memory
class Ptr:
    __slots__ = ('c', 'i')

    def __init__(self, c, i):
        self.c = c
        self.i = i

    def __repr__(self):
        return 'Ptr(%r)' % (self.c[self.i],)


class Slice:
    """a[off:off+len], capacity cap (counted from off)"""
    __slots__ = ('a', 'off', 'len', 'cap')

    def __init__(self, a, off, ln, cap):
        self.a, self.off, self.len, self.cap = a, off, ln, cap

    def list(self):
        return self.a[self.off:self.off + self.len]

    def __repr__(self):
        return 'Slice(%r)' % (self.list(),)


class OSlice:
    """bytes whose elements are not materialised (encodings of symbolic values); never written to"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class Enc(OSlice):
    """what the codec wrote for a value"""
    __slots__ = ('tree',)

    def __init__(self, tree, s):
        self.s = s
        self.tree = tree


class Iface:
    __slots__ = ('t', 'v')

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __repr__(self):
        return 'Iface(%r,%r)' % (self.t, self.v)


class PyObj:
    """a Go object implemented here; goname gives the methods"""
    def go(self, name, *args):
        return getattr(self, 'go_' + name)(*args)


class Closure:
    __slots__ = ('f', 'b', 'name')

    def __init__(self, f, b, name=''):
        self.f, self.b, self.name = f, b, name

    def __call__(self, *a):
        return self.f(*a, *self.b)

    def __deepcopy__(self, memo):
        import copy
        if not self.b:
            return self
        c = Closure(self.f, (), self.name)
        memo[id(self)] = c
        c.b = copy.deepcopy(self.b, memo)
        return c


class GoMap:
    __slots__ = ('d', 'sym')

    def __init__(self):
        self.d = {}             # hashable key -> [key, value]
        self.sym = False        # some key is symbolic

    def find(self, k):
        h = hkey(k)
        if h is not None and not self.sym:
            return self.d.get(h)
        for e in list(self.d.values()):
            if truth(eqv(e[0], k)):
                return e
        return None

    def __deepcopy__(self, memo):
        import copy
        m = GoMap()
        memo[id(self)] = m
        m.sym = self.sym
        for k, v in list(self.d.values()):
            m.set(copy.deepcopy(k, memo), copy.deepcopy(v, memo))
        return m

    def set(self, k, v):
        e = self.find(k)
        if e is not None:
            e[1] = v
            return
        h = hkey(k)
        if h is None:
            self.sym = True
            h = ('s', len(self.d), object())
        self.d[h] = [k, v]

    def delete(self, k):
        e = self.find(k)
        if e is not None:
            for h, x in self.d.items():
                if x is e:
                    del self.d[h]
                    return


def hkey(k):
    """a hashable stand-in of a concrete key; None when it is symbolic"""
    t = type(k)
    if t is bytes or t is int or t is bool or t is float:
        return (t, k)
    if k is None:
        return (None,)
    if t is SymInt or t is SymBool or t is SymBytes:
        return None
    if t is list:
        r = tuple(hkey(x) for x in k)
        return None if None in r else r
    if t is Ptr:
        return ('p', id(k.c), k.i)
    if t is Iface:
        r = hkey(k.v)
        return None if r is None else ('i', k.t, r)
    return ('o', id(k))


def truth(c):
    return c if c is True or c is False else bool(c)


def nilderef():
    raise GoPanic(None, 'nil pointer dereference')


def copyv(v):
    return [copyv(x) if type(x) is list else x for x in v]


def load(p):
    if p is None:
        nilderef()
    v = p.c[p.i]
    return copyv(v) if type(v) is list else v


def assign(dst, src):
    for i, x in enumerate(src):
        if type(x) is list:
            assign(dst[i], x)
        else:
            dst[i] = x


def store(p, v):
    if p is None:
        nilderef()
    if type(v) is list:
        d = p.c[p.i]
        if d is not v:
            if type(d) is list and len(d) == len(v):
                assign(d, copyv(v))
            else:
                p.c[p.i] = copyv(v)
    else:
        p.c[p.i] = v


def fieldaddr(p, i):
    if p is None:
        nilderef()
    return Ptr(p.c[p.i], i)


def field(x, i):
    v = x[i]
    return copyv(v) if type(v) is list else v


def peq(a, b):
    """pointer-like equality: pointers, maps, chans, funcs, slices against nil"""
    if a is b:
        return True
    if type(a) is Ptr and type(b) is Ptr:
        return a.c is b.c and a.i == b.i
    return False


def eqv(a, b):
    """== on any comparable values"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if a is None or b is None:
        return False
    if ta is Iface or tb is Iface:
        if ta is not tb or a.t != b.t:
            return False
        return eqv(a.v, b.v)
    if ta is list:
        r = True
        for x, y in zip(a, b):
            r = conj(r, eqv(x, y))
            if r is False:
                return False
        return r
    if ta is Ptr or tb is Ptr:
        return peq(a, b)
    if ta is Slice or ta is GoMap or ta is OSlice:
        raise GoPanic(None, 'comparing uncomparable type')
    if isinstance(a, PyObj) or isinstance(b, PyObj) or ta is Closure:
        return False
    return a == b


def conj(a, b):
    if a is True:
        return b
    if a is False or b is False:
        return False
    if b is True:
        return a
    return mk_bool(z3.And(zbool(a), zbool(b)))


# ------------------------------------------------------------------ integers
RANGE = {}
for _n, _b, _s in (('int', 64, 1), ('int8', 8, 1), ('int16', 16, 1), ('int32', 32, 1), ('int64', 64, 1),
                   ('uint', 64, 0), ('uint8', 8, 0), ('uint16', 16, 0), ('uint32', 32, 0), ('uint64', 64, 0),
                   ('uintptr', 64, 0)):
    RANGE[_n] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1, 1 << _b) if _s else (0, (1 << _b) - 1, 1 << _b)
RANGE['byte'] = RANGE['uint8']
RANGE['rune'] = RANGE['int32']
RANGE['untyped int'] = RANGE['int64']
RANGE['untyped rune'] = RANGE['int32']

BOUNDS = {}             # name of an input -> (lo, hi)
_iv = {}


def interval(t):
    """bounds of a z3 Int term that hold by its structure; None where unknown"""
    k = t.get_id()
    r = _iv.get(k)
    if r is not None:
        return r[1]
    r = _interval(t)
    if len(_iv) > 200000:
        _iv.clear()
    _iv[k] = (t, r)
    return r


def _interval(t):
    if z3.is_int_value(t):
        v = t.as_long()
        return v, v
    d = t.decl().kind()
    if d == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
        return BOUNDS.get(t.decl().name(), (None, None))
    ch = t.children()
    if d == z3.Z3_OP_ADD:
        lo = hi = 0
        for c in ch:
            a, b = interval(c)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return lo, hi
    if d == z3.Z3_OP_MUL:
        iv = (1, 1)
        for c in ch:
            a, b = iv
            x, y = interval(c)
            if None in (a, b, x, y):
                if a is not None and x is not None and a >= 0 and x >= 0:
                    iv = (a * x, None)
                    continue
                return None, None
            ps = (a * x, a * y, b * x, b * y)
            iv = (min(ps), max(ps))
        return iv
    if d == z3.Z3_OP_SUB and len(ch) == 2:
        (a, b), (x, y) = interval(ch[0]), interval(ch[1])
        return (None if a is None or y is None else a - y), (None if b is None or x is None else b - x)
    if d == z3.Z3_OP_ITE:
        (a, b), (x, y) = interval(ch[1]), interval(ch[2])
        return (None if a is None or x is None else min(a, x)), (None if b is None or y is None else max(b, y))
    if d == z3.Z3_OP_IDIV:
        (a, b), (x, y) = interval(ch[0]), interval(ch[1])
        if x is not None and x >= 1:
            return (None if a is None else (0 if a >= 0 else a)), (None if b is None else (b if b >= 0 else 0))
        return None, None
    if d == z3.Z3_OP_MOD:
        x, y = interval(ch[1])
        if x is not None and y is not None and x >= 1:
            return 0, y - 1
        return None, None
    return None, None


def fit(v, kind):
    lo, hi, m = RANGE[kind]
    if type(v) is int:
        if lo <= v <= hi:
            return v
        return (v - lo) % m + lo
    if type(v) is bool:
        return int(v)
    a, b = interval(v.t)
    if a is not None and b is not None and lo <= a and b <= hi:
        return v
    e = core.engine()
    if e.branch(z3.And(v.t >= lo, v.t <= hi)):
        return v
    return mk_int((v.t - lo) % m + lo)


def goquo(a, b):
    """division truncated towards zero"""
    if type(a) is int and type(b) is int:
        if b == 0:
            raise GoPanic(None, 'integer divide by zero')
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    e = core.engine()
    ta, tb = z3.simplify(zint(a)), z3.simplify(zint(b))
    if z3.is_int_value(tb):
        if tb.as_long() == 0:
            raise GoPanic(None, 'integer divide by zero')
        pos = tb.as_long() > 0
    else:
        lo, hi = interval(tb)
        if not (lo is not None and lo > 0):
            if e.branch(tb == 0):
                raise GoPanic(None, 'integer divide by zero')
            pos = e.branch(tb > 0)
        else:
            pos = True
    if not pos:
        tb = -tb
    lo, hi = interval(ta)
    if lo is not None and lo >= 0 or e.branch(ta >= 0):
        q = ta / tb
    else:
        q = -((-ta) / tb)
    return mk_int(q if pos else -q)


def gorem(a, b):
    if type(a) is int and type(b) is int:
        if b == 0:
            raise GoPanic(None, 'integer divide by zero')
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    e = core.engine()
    ta, tb = z3.simplify(zint(a)), z3.simplify(zint(b))
    lo, _ = interval(tb)
    if not (lo is not None and lo > 0):
        if e.branch(tb == 0):
            raise GoPanic(None, 'integer divide by zero')
        if not e.branch(tb > 0):
            tb = -tb
    lo, _ = interval(ta)
    if lo is not None and lo >= 0 or e.branch(ta >= 0):
        return mk_int(ta % tb)
    return mk_int(-((-ta) % tb))


def shl(a, n):
    n = n if type(n) is int else n.__index__()
    if n < 0:
        raise GoPanic(None, 'negative shift amount')
    return a << n if n < 4096 else 0


def shr(a, n):
    n = n if type(n) is int else n.__index__()
    if n < 0:
        raise GoPanic(None, 'negative shift amount')
    return a >> min(n, 4096)


def bitop(op, a, b):
    """&, | and ^ of integers of which one may be symbolic; two symbolic ones by fixing the second"""
    if type(a) is not int and type(b) is not int:
        (x, y) = interval(b.t)
        if op != '&' or True:
            r = small_bitop(op, a, b)
            if r is not None:
                return r
        b = b.__index__()
    if op == '&':
        return a & b
    if op == '|':
        return a | b
    return a ^ b


def small_bitop(op, a, b):
    """bit by bit when both are known to be short"""
    (l1, h1), (l2, h2) = interval(a.t), interval(b.t)
    if None in (l1, h1, l2, h2) or l1 < 0 or l2 < 0:
        return None
    n = max(h1, h2).bit_length()
    if n > 17:
        return None
    # disjoint ranges of bits: x<<k | y
    r = z3.IntVal(0)
    for i in range(n):
        x, y = (a.t / (1 << i)) % 2, (b.t / (1 << i)) % 2
        bit = z3.And(x == 1, y == 1) if op == '&' else z3.Or(x == 1, y == 1) if op == '|' else x != y
        r = r + z3.If(bit, 1 << i, 0)
    return mk_int(r)


def cmp3(a, b):
    if type(a) is int and type(b) is int:
        return (a > b) - (a < b)
    ta, tb = zint(a), zint(b)
    return mk_int(z3.If(ta < tb, -1, z3.If(ta == tb, 0, 1)))


# ------------------------------------------------------------------ strings and slices
def slen(x):
    if x is None:
        return 0
    t = type(x)
    if t is bytes:
        return len(x)
    if t is Slice:
        return x.len
    if t is SymBytes:
        return x.sx_len()
    if t is GoMap:
        return len(x.d)
    if isinstance(x, OSlice):
        return slen(x.s)
    if t is list:
        return len(x)
    if t is Ptr:
        return len(x.c[x.i])
    raise Unsupported('len of %r' % (t,))


def cap(x):
    if x is None:
        return 0
    if type(x) is Slice:
        return x.cap
    return slen(x)


def bounds(i, n):
    if type(i) is int and type(n) is int:
        if not 0 <= i < n:
            raise GoPanic(None, 'index out of range')
        return i
    if not (truth(i >= 0) and truth(i < n)):
        raise GoPanic(None, 'index out of range')
    return i


def strindex(s, i):
    bounds(i, slen(s))
    r = s[i if type(i) is int else i.__index__()]
    return r


def indexaddr(x, i):
    if x is None:
        raise GoPanic(None, 'index out of range')
    if type(x) is Slice:
        i = bounds(i, x.len)
        return Ptr(x.a, x.off + (i if type(i) is int else i.__index__()))
    if type(x) is Ptr:
        a = x.c[x.i]
        i = bounds(i, len(a))
        return Ptr(a, i if type(i) is int else i.__index__())
    if isinstance(x, OSlice):
        i = bounds(i, slen(x.s))
        return Ptr([x.s[i]], 0)
    raise Unsupported('index of %r' % (x,))


def index(x, i):
    if type(x) is list:
        i = bounds(i, len(x))
        v = x[i if type(i) is int else i.__index__()]
        return copyv(v) if type(v) is list else v
    return strindex(x, i)


def b2s(x):
    """[]byte -> string"""
    if x is None:
        return b''
    if type(x) is Slice:
        return mk_bytes([y if type(y) is int else y.t for y in x.list()])
    if isinstance(x, OSlice):
        return x.s
    raise Unsupported('b2s %r' % (x,))


ENCS = {}       # what an opaque string is the encoding of; per path


def s2b(s):
    """string -> []byte"""
    if type(s) is bytes:
        n = len(s)
        return Slice(list(s), 0, n, n)
    items = s.norm()
    if any(type(y) is V.Blob for y in items):
        e = ENCS.get(items[0].name) if len(items) == 1 and type(items[0]) is V.Blob else None
        return e if e is not None else OSlice(s)
    ls = [y if type(y) is int else mk_int(y) for y in items]
    return Slice(ls, 0, len(ls), len(ls))


def concr(n):
    return n if type(n) is int else n.__index__()


def slice_(x, lo, hi, mx, isstr):
    if isstr or isinstance(x, OSlice):
        s = x.s if isinstance(x, OSlice) else x
        n = slen(s)
        lo = 0 if lo is None else lo
        hi = n if hi is None else hi
        if not (truth(lo >= 0) and truth(lo <= hi) and truth(hi <= n)):
            raise GoPanic(None, 'slice bounds out of range')
        if type(lo) is int and lo == 0 and hi is n:
            return x
        r = s[lo:hi]
        return r if isstr else s2b(r)
    if x is None:
        for y in (lo, hi, mx):
            if y is not None and concr(y) != 0:
                raise GoPanic(None, 'slice bounds out of range')
        return None
    if type(x) is Ptr:
        a = x.c[x.i]
        x = Slice(a, 0, len(a), len(a))
    lo = 0 if lo is None else lo
    hi = x.len if hi is None else hi
    m = x.cap if mx is None else concr(mx)
    if not (truth(lo >= 0) and truth(lo <= hi) and truth(hi <= m) and m <= x.cap):
        raise GoPanic(None, 'slice bounds out of range')
    lo, hi = concr(lo), concr(hi)
    return Slice(x.a, x.off + lo, hi - lo, m - lo)


def elems(y):
    """elements of a slice or string as a list"""
    if y is None:
        return []
    if type(y) is Slice:
        return y.list()
    if isinstance(y, OSlice):
        y = y.s
    if type(y) is bytes:
        return list(y)
    n = concr(slen(y))
    return [y[i] for i in range(n)]


def append(x, y):
    if y is None:
        return x
    if (x is None or (type(x) is Slice and x.len == 0)) and isinstance(y, OSlice):
        return y
    if isinstance(x, OSlice) or isinstance(y, OSlice) or type(y) is SymBytes:
        # byte strings with parts that are not materialised
        a = b2s(x)
        b = y if type(y) in (bytes, SymBytes) else b2s(y)
        if type(a) is bytes and not a:
            return s2b(b)
        return s2b(a + b)
    ys = [copyv(v) if type(v) is list else v for v in elems(y)]
    n = len(ys)
    if x is None:
        return Slice(ys, 0, n, n) if n else None
    if x.len + n <= x.cap:
        x.a[x.off + x.len:x.off + x.len + n] = ys
        return Slice(x.a, x.off, x.len + n, x.cap)
    a = x.list() + ys
    c = max(2 * x.cap, len(a))
    filler = zero_like(a[0]) if a else 0
    a += [copyv(filler) if type(filler) is list else filler for _ in range(c - len(a))]
    return Slice(a, 0, x.len + n, c)


def zero_like(v):
    t = type(v)
    if t is int or t is SymInt:
        return 0
    if t is bool or t is SymBool:
        return False
    if t is bytes or t is SymBytes:
        return b''
    if t is list:
        return [zero_like(x) for x in v]
    if t is float:
        return 0.0
    return None


def copy_(d, s):
    if d is None or s is None:
        return 0
    if type(s) is not Slice:
        ls = elems(s)
    else:
        ls = s.list()
    n = min(d.len, len(ls))
    for i in range(n):
        v = ls[i]
        if type(v) is list:
            assign(d.a[d.off + i], copyv(v))
        else:
            d.a[d.off + i] = v
    return n


def concat(a, b):
    return a + b


def strlt(a, b):
    return a < b


# ------------------------------------------------------------------ maps
def lookup(m, k, z, ok):
    e = m.find(k) if m is not None else None
    if e is None:
        return (z(), False) if ok else z()
    v = e[1]
    if type(v) is list:
        v = copyv(v)
    return (v, True) if ok else v


def mapupdate(m, k, v):
    if m is None:
        raise GoPanic(None, 'assignment to entry in nil map')
    m.set(k, copyv(v) if type(v) is list else v)


CTX = None
ORDERS = True       # whether the order of maps is any


class MapIter:
    """the order in which a map is iterated is any one: an input like the others"""

    def __init__(self, m):
        self.m = m
        self.left = list(m.d.values()) if m is not None else []

    def next(self):
        while self.left:
            i = 0
            if len(self.left) > 1:
                i = CTX.choice('map order', range(len(self.left))) if ORDERS else 0
            en = self.left.pop(i)
            if any(x is en for x in self.m.d.values()):
                return (True, en[0], en[1])
        return (False, None, None)


class StrIter:
    def __init__(self, s):
        self.s = s if type(s) is bytes else bytes(s)
        self.i = 0

    def next(self):
        if self.i >= len(self.s):
            return (False, 0, 0)
        i = self.i
        for n in (1, 2, 3, 4):
            try:
                c = self.s[i:i + n].decode()
                self.i += n
                return (True, i, ord(c))
            except UnicodeDecodeError:
                continue
        self.i += 1
        return (True, i, 0xFFFD)


def range_(x, isstr):
    return StrIter(x) if isstr else MapIter(x)


# ------------------------------------------------------------------ panics
PANICS = []


def recover_():
    for p in reversed(PANICS):
        if not p.recovered:
            p.recovered = True
            if p.val is None:
                return Iface('py', PyErr(p.what))
            return p.val
        break
    return None


class PyErr(PyObj):
    def __init__(self, s):
        self.s = s.encode() if isinstance(s, str) else s

    def go_Error(self):
        return self.s

    def go_RuntimeError(self):
        return None


def run_defers(D):
    while D:
        f, a = D.pop()
        f(*a)


def panic_defers(D, p):
    """run the deferred calls of a frame that panics; raises unless one of them recovers"""
    PANICS.append(p)
    try:
        while D:
            f, a = D.pop()
            f(*a)
            if p.recovered:
                break
    finally:
        PANICS.remove(p)
    if not p.recovered:
        raise p
    run_defers(D)


def gopanic(v):
    what = ''
    if isinstance(v, Iface) and type(v.v) is bytes:
        what = v.v.decode('utf-8', 'replace')
    raise GoPanic(v, what)
