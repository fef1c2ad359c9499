"""Symbolic values: proxies that behave like int / bool / bytes / str."""
import z3

from .core import engine, PathInfeasible

I = z3.IntVal


def zint(x):
    if isinstance(x, z3.ExprRef):
        return x
    t = type(x)
    if t is SymInt:
        return x.t
    if t is SymBool:
        return z3.If(x.t, I(1), I(0))
    return I(int(x))


def is_intlike(x):
    t = type(x)
    return t is SymInt or t is SymBool or isinstance(x, int)


def mk_int(t):
    t = z3.simplify(t) if not z3.is_int_value(t) else t
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mk_bool(t):
    if t is True or t is False:
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def zbool(x):
    if isinstance(x, z3.BoolRef):
        return x
    if type(x) is SymBool:
        return x.t
    if type(x) is SymInt:
        return x.t != 0
    return z3.BoolVal(bool(x))


class Sym:
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return engine().branch(self.t)

    def __index__(self):
        return 1 if engine().branch(self.t) else 0

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if type(o) is SymBool:
            return mk_bool(self.t == o.t)
        if o is True:
            return mk_bool(self.t)
        if o is False:
            return mk_bool(z3.Not(self.t))
        if is_intlike(o):
            return mk_bool(zint(self) == zint(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    def __and__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mk_bool(z3.And(self.t, zbool(o)))
        return mk_int(zint(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mk_bool(z3.Or(self.t, zbool(o)))
        return mk_int(zint(self)) | o
    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mk_bool(z3.Xor(self.t, zbool(o)))
        return mk_int(zint(self)) ^ o
    __rxor__ = __xor__

    def __repr__(self):
        return 'SymBool'

    def __str__(self):
        return 'True' if self else 'False'

    def __format__(self, spec):
        return format(bool(self), spec)

    def __getattr__(self, name):
        # the int interface of a bool
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return getattr(as_symint(self), name)


def _bool_num(name):
    def f(self, *a):
        return getattr(as_symint(self), name)(*a)
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__floordiv__',
           '__rfloordiv__', '__mod__', '__rmod__', '__lt__', '__le__', '__gt__', '__ge__',
           '__neg__', '__pos__', '__abs__', '__lshift__', '__rshift__', '__truediv__', '__invert__'):
    setattr(SymBool, _n, _bool_num(_n))


def as_symint(x):
    if type(x) is SymBool:
        return SymInt(zint(x))
    return x


def s_not(x):
    if type(x) is SymBool:
        return mk_bool(z3.Not(x.t))
    return not x


def _mask_runs(mask):
    runs = []
    lo = 0
    while mask:
        while not mask & 1:
            mask >>= 1
            lo += 1
        n = 0
        while mask & 1:
            mask >>= 1
            n += 1
        runs.append((lo, n))
        lo += n
    return runs


class SymFrac(Sym):
    """Exact quotient of an integer by a non-zero constant (result of '/')."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        if d < 0:
            n, d = -n, -d
        self.n, self.d = n, d
        # a double holds the quotient exactly only when |n| < 2**53 and d is a power of two
        if d & (d - 1) or engine().feasible(z3.Or(n >= 2 ** 53, n <= -2 ** 53)):
            engine().mark_partial('true division modelled exactly beyond double precision')

    __class__ = property(lambda self: float)

    def __int__(self):
        return NotImplemented

    def trunc(self):
        return mk_int(z3.If(self.n >= 0, self.n / self.d, -((-self.n) / self.d)))

    def floor(self):
        return mk_int(self.n / self.d)

    def ceil(self):
        return mk_int(-((-self.n) / self.d))

    def _cmp(self, o, op):
        if is_intlike(o):
            return mk_bool(op(self.n, zint(o) * self.d))
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __hash__(self): return 0


class SymInt(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    __class__ = property(lambda self: int)

    # -- conversions
    def __bool__(self):
        return engine().branch(self.t != 0)

    def __index__(self):
        return engine().concretize(self.t, 'int')

    def __int__(self):
        return engine().concretize(self.t, 'int')

    def __float__(self):
        return float(engine().pin(self.t, 'float()'))

    def __hash__(self):
        return hash(engine().concretize(self.t, 'hash(int)'))

    def __repr__(self):
        return 'SymInt(%s)' % (self.t,)

    # -- arithmetic
    def _bin(self, o, f):
        if is_intlike(o):
            return mk_int(f(self.t, zint(o)))
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if is_intlike(o):
            return mk_int(self.t * zint(o))
        if isinstance(o, (bytes, str, list, tuple)):
            return o * self.__index__()
        return NotImplemented
    __rmul__ = __mul__

    def __neg__(self): return mk_int(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mk_int(z3.If(self.t >= 0, self.t, -self.t))
    def __invert__(self): return mk_int(-self.t - 1)

    def __truediv__(self, o):
        if isinstance(o, int) and type(o) is not SymInt and type(o) is not SymBool:
            if o == 0:
                raise ZeroDivisionError('division by zero')
            return SymFrac(self.t, int(o))
        if is_intlike(o):
            return self / engine().pin(zint(o), 'symbolic true division')
        return NotImplemented

    @staticmethod
    def _fdiv(a, b):
        """floor division of z3 terms (z3 div is Euclidean)."""
        b = z3.simplify(b)
        if z3.is_int_value(b):
            d = b.as_long()
            if d == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            return a / d if d > 0 else (-a) / (-d)
        e = engine()
        if e.branch(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if e.branch(b > 0):
            return a / b
        return (-a) / (-b)

    def __floordiv__(self, o):
        if is_intlike(o):
            return mk_int(self._fdiv(self.t, zint(o)))
        return NotImplemented

    def __rfloordiv__(self, o):
        if is_intlike(o):
            return mk_int(self._fdiv(zint(o), self.t))
        return NotImplemented

    def __mod__(self, o):
        if is_intlike(o):
            b = zint(o)
            if z3.is_int_value(z3.simplify(b)) and z3.simplify(b).as_long() > 0:
                return mk_int(self.t % b)
            return mk_int(self.t - self._fdiv(self.t, b) * b)
        return NotImplemented

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        if is_intlike(o):
            a = zint(o)
            return mk_int(a - self._fdiv(a, self.t) * self.t)
        return NotImplemented

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and mod is None and 0 <= o <= 8:
            r = 1
            for _ in range(int(o)):
                r = self * r
            return r
        return pow(self.__index__(), o, mod)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        if is_intlike(o):
            n = int(o)
            if n < 0:
                raise ValueError('negative shift count')
            return mk_int(self.t * (1 << n))
        return NotImplemented

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if is_intlike(o):
            n = int(o)
            if n < 0:
                raise ValueError('negative shift count')
            return mk_int(self.t / (1 << n))
        return NotImplemented

    def __rrshift__(self, o):
        return o >> self.__index__()

    def _and_const(self, m):
        if m >= 0:
            r = I(0)
            for lo, n in _mask_runs(m):
                r = r + (self.t / (1 << lo)) % (1 << n) * (1 << lo)
            return r
        # x & m == x - (x & ~m)
        return self.t - self._and_const(~m)

    def __and__(self, o):
        if is_intlike(o):
            if type(o) in (SymInt, SymBool):
                o = int(o)
            return mk_int(self._and_const(int(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if is_intlike(o):
            o = int(o)
            if o == 0:
                return self
            return mk_int(self.t + o - self._and_const(o))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if is_intlike(o):
            o = int(o)
            return mk_int(self.t + o - 2 * self._and_const(o))
        return NotImplemented
    __rxor__ = __xor__

    # -- comparison
    def _cmp(self, o, f):
        if is_intlike(o):
            return mk_bool(f(self.t, zint(o)))
        if isinstance(o, float):
            if o != o or o in (float('inf'), float('-inf')):
                return f(0.0, o)
            n, d = o.as_integer_ratio()
            return mk_bool(f(self.t * d, I(n)))
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)

    # -- int methods
    @property
    def real(self): return self
    @property
    def numerator(self): return self
    @property
    def imag(self): return 0
    @property
    def denominator(self): return 1

    def conjugate(self): return self
    def is_integer(self): return True

    def bit_length(self):
        e = engine()
        key = ('bl', self.t.get_id())
        if key in e.memo:
            return e.memo[key]
        e.keep.append(self.t)
        a = z3.simplify(z3.If(self.t >= 0, self.t, -self.t))
        for n in (8, 16, 32, 64, 128, 264, 520, 1032):
            if not e.feasible(a >= (1 << n)):
                break
        else:
            e.mark_partial('bit_length beyond 1032 bits')
            e.assume(a < (1 << n))
        L = z3.Int(e.fresh_name('bitlen'))
        cs = [L >= 0, L <= n]
        for k in range(n):
            cs.append((L <= k) == (a < (1 << k)))
        e.add(z3.And(cs))
        r = SymInt(L)
        e.memo[key] = r
        return r

    def bit_count(self):
        return self.__index__().bit_count()

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        e = engine()
        n = int(length)
        if n < 0:
            raise ValueError('length argument must be non-negative')
        t = self.t
        if signed:
            lim = 1 << (8 * n - 1) if n else 0
            if n == 0:
                ok = t == 0
            else:
                ok = z3.And(t >= -lim, t < lim)
            if not e.branch(ok):
                raise OverflowError('int too big to convert')
        else:
            if e.branch(t < 0):
                raise OverflowError("can't convert negative int to unsigned")
            if not e.branch(t < (1 << (8 * n))):
                raise OverflowError('int too big to convert')
        if n == 0:
            return b''
        key = ('tb', t.get_id(), n, bool(signed))
        if key not in e.memo:
            e.keep.append(t)
            if n == 1 and not signed:
                bs = [t]
            else:
                bs = [z3.Int(e.fresh_name('tb')) for _ in range(n)]
                cs = [z3.And(b >= 0, b <= 255) for b in bs]
                tot = z3.Sum([b * (1 << (8 * (n - 1 - i))) for i, b in enumerate(bs)])
                if signed:
                    cs.append(tot == t + z3.If(t < 0, I(1 << (8 * n)), I(0)))
                else:
                    cs.append(tot == t)
                e.add(z3.And(cs))
            e.memo[key] = bs
        bs = list(e.memo[key])
        if byteorder == 'little':
            bs.reverse()
        elif byteorder != 'big':
            raise ValueError("byteorder must be either 'little' or 'big'")
        return mk_bytes(bs)

    def __str__(self):
        return str(engine().pin(self.t, 'str(int)'))

    def __format__(self, spec):
        return format(engine().pin(self.t, 'format(int)'), spec)


def int_from_bytes(b, byteorder='big', signed=False):
    if not isinstance(b, bytes):
        b = m_bytes(b)
    if isinstance(b, SymBytes_t):
        items = b.flat()
    else:
        items = list(b)
    if byteorder == 'little':
        items = items[::-1]
    elif byteorder != 'big':
        raise ValueError("byteorder must be either 'little' or 'big'")
    n = len(items)
    if n == 0:
        return 0
    tot = z3.Sum([zint(x) * (1 << (8 * (n - 1 - i))) for i, x in enumerate(items)])
    if signed:
        tot = tot - z3.If(zint(items[0]) >= 128, I(1 << (8 * n)), I(0))
    return mk_int(tot)


# ------------------------------------------------------------------ sequences
class Blob:
    """An opaque segment of symbolic length (arbitrary content)."""
    __slots__ = ('name', 'ln', 'kind', 'parts', 'info')

    def __init__(self, name, ln, kind='bytes', info=None):
        self.name = name
        self.ln = ln          # python int or z3 Int term
        self.kind = kind
        self.parts = None     # after a split: list of items
        self.info = info

    def lenterm(self):
        return self.ln if isinstance(self.ln, z3.ExprRef) else I(self.ln)


def _norm(items):
    if not any(type(x) is Blob and x.parts is not None for x in items):
        return items
    out = []
    for x in items:
        if type(x) is Blob and x.parts is not None:
            out.extend(_norm(x.parts))
        else:
            out.append(x)
    return out


def _elem_var(kind, name):
    v = z3.Int(name)
    if kind == 'bytes':
        c = z3.And(v >= 0, v <= 255)
    else:
        c = z3.And(v >= 0, v <= 0x10FFFF, z3.Or(v < 0xD800, v > 0xDFFF))
    return v, c


def blob_head(b):
    """Split a blob known non-empty into first element + rest."""
    e = engine()
    if b.info is not None and (b.info[0] == 'intof' or b.info[0] in EXPAND):
        return blob_expand(b)
    v, c = _elem_var(b.kind, e.fresh_name(b.name + '.h'))
    e.add(c)
    rest = Blob(b.name + "'", z3.simplify(b.lenterm() - 1), b.kind)
    b.parts = [v, rest]
    return b.parts


def blob_split(b, pos):
    """Split blob at 0<=pos<=len (z3 term)."""
    if b.info is not None and (b.info[0] == 'intof' or b.info[0] in EXPAND):
        blob_expand(b)
        n = engine().concretize(z3.simplify(pos), 'split point')
        a, c = Blob(b.name + '<', n, b.kind), Blob(b.name + '>', len(b.parts) - n, b.kind)
        a.parts, c.parts = b.parts[:n], b.parts[n:]
        b.parts = [a, c]
        return b.parts
    a = Blob(b.name + '<', z3.simplify(pos), b.kind)
    c = Blob(b.name + '>', z3.simplify(b.lenterm() - pos), b.kind)
    b.parts = [a, c]
    return b.parts


EXPAND = {}                  # kind of derived text -> function that gives its elements


def blob_expand(b):
    """Materialise a blob: fixes its length by forking (complete), content arbitrary."""
    e = engine()
    if b.info is not None and b.info[0] in EXPAND:
        b.parts = EXPAND[b.info[0]](b.info[1])
        e.add(b.lenterm() == len(b.parts))
        return b.parts
    n = e.concretize(b.lenterm(), 'blob length') if isinstance(b.ln, z3.ExprRef) else b.ln
    if n < 0:
        e.raise_control(PathInfeasible())
    if n > 512:
        e.mark_partial('long opaque blob expanded')
    if b.info is not None and b.info[0] == 'intof':
        b.parts = list(SymBytes.of(as_symint(mk_int(b.info[1])).to_bytes(n, 'big', signed=True)))
        return b.parts
    out = []
    for i in range(n):
        v, c = _elem_var(b.kind, e.fresh_name(b.name + '.e'))
        e.add(c)
        out.append(v)
    b.parts = out
    return out


def is_intof(x):
    return type(x) is Blob and x.info is not None and x.info[0] == 'intof'


def lazy_int_to_bytes(v):
    """minimal two's complement encoding, kept symbolic (its length is exact, no forking)"""
    e = engine()
    if type(v) not in (SymInt, SymBool):
        n_bytes = ((v + (v < 0)).bit_length() + 8) // 8
        return v.to_bytes(n_bytes, byteorder="big", signed=True)
    v = SymInt(zint(v))
    key = ('intof', v.t.get_id())
    if key not in e.memo:
        e.keep.append(v.t)
        L = z3.Int(e.fresh_name('ilen'))
        cs = [L >= 1, L <= 66]
        for k in list(range(1, 34)) + [65]:
            lim = 1 << (8 * k - 1)
            cs.append(z3.And(v.t >= -lim, v.t < lim) == (L <= k))
        e.add(z3.And(cs))
        e.memo[key] = SymBytes([Blob(e.fresh_name('int'), L, 'bytes', ('intof', v.t))])
    return e.memo[key]


def lazy_bytes_to_int(b):
    if type(b) is SymBytes:
        items = b.norm()
        if len(items) == 1 and is_intof(items[0]):
            return mk_int(items[0].info[1])
    return int_from_bytes(b, 'big', True)


def digest_eq(a, b):
    """Equality of two digest blobs (collision-free model)."""
    if a is b:
        return True
    (alga, prea), (algb, preb) = a.info, b.info
    if alga != algb:
        return False
    return seq_eq(prea, preb)


def _bool_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return mk_bool(z3.And(zbool(a), zbool(b)))


def seq_eq(xs, ys):
    """Equality of two item lists, as bool / SymBool."""
    e = engine()
    xs, ys = list(_norm(xs)), list(_norm(ys))
    cond = True

    def popfront():
        nonlocal cond
        progressed = False
        while xs and ys:
            x, y = xs[0], ys[0]
            if type(x) is Blob and type(y) is Blob:
                if x is y:
                    pass
                elif x.info is not None and y.info is not None and x.kind == 'bytes' \
                        and x.info[0] in DIGESTS and y.info[0] in DIGESTS:
                    cond = _bool_and(cond, digest_eq(x, y))
                else:
                    return progressed
            elif type(x) is Blob or type(y) is Blob:
                return progressed
            else:
                cond = _bool_and(cond, elem_eq(x, y))
            xs.pop(0)
            ys.pop(0)
            progressed = True
            if cond is False:
                return True
        return progressed

    if len(xs) == 1 and len(ys) == 1 and is_intof(xs[0]) and is_intof(ys[0]):
        return mk_bool(xs[0].info[1] == ys[0].info[1])
    popfront()
    if cond is False:
        return False
    # strip identical tails
    while xs and ys and xs[-1] is ys[-1] and type(xs[-1]) is Blob:
        xs.pop()
        ys.pop()
    while xs and ys and type(xs[-1]) is not Blob and type(ys[-1]) is not Blob:
        cond = _bool_and(cond, elem_eq(xs[-1], ys[-1]))
        xs.pop()
        ys.pop()
        if cond is False:
            return False
    if not xs or not ys:
        for r in (xs or ys):
            if type(r) is Blob:
                cond = _bool_and(cond, mk_bool(r.lenterm() == 0))
            else:
                return False
        return cond
    # misaligned: lengths must agree, then align
    lx, ly = seq_len_term(xs), seq_len_term(ys)
    if not e.branch(lx == ly):
        return False
    if cond is not True and not e.branch(zbool(cond)):
        return False
    # digest against concrete bytes
    for a, b in ((xs, ys), (ys, xs)):
        x = a[0]
        if type(x) is Blob and x.info is not None and x.info[0] in DIGESTS and len(b) >= x.ln \
                and all(type(z) is int for z in b[:x.ln]):
            pre = DIGEST_REGISTRY.get((x.info[0], bytes(b[:x.ln])))
            if pre is None:
                return False
            r = seq_eq(x.info[1], list(pre))
            return _bool_and(r, seq_eq(a[1:], b[x.ln:]))
    x, y = xs[0], ys[0]
    if type(x) is Blob and type(y) is Blob:
        # cut the longer one to the length of the shorter one
        if e.branch(x.lenterm() == 0):
            return seq_eq(xs[1:], ys)
        if e.branch(y.lenterm() == 0):
            return seq_eq(xs, ys[1:])
        if e.branch(x.lenterm() < y.lenterm()):
            blob_split(y, x.lenterm())
            return seq_eq(xs, ys)
        if e.branch(y.lenterm() < x.lenterm()):
            blob_split(x, y.lenterm())
            return seq_eq(xs, ys)
        if is_intof(x) or is_intof(y):
            blob_expand(x)
            blob_expand(y)
            return seq_eq(xs, ys)
        # same length, different opaque content: arbitrary, memoised equality
        key = ('beq', min(id(x), id(y)), max(id(x), id(y)))
        if key not in e.memo:
            e.memo[key] = (z3.Bool(e.fresh_name('blobeq')), x, y)
        return _bool_and(mk_bool(e.memo[key][0]), seq_eq(xs[1:], ys[1:]))
    blob = x if type(x) is Blob else y
    if e.branch(blob.lenterm() == 0):
        return seq_eq([z for z in xs if z is not blob], [z for z in ys if z is not blob])
    blob_head(blob)
    return seq_eq(xs, ys)


DIGESTS = {}
DIGEST_REGISTRY = {}


def elem_eq(x, y):
    if type(x) is int and type(y) is int:
        return x == y
    return mk_bool(zint(x) == zint(y))


def seq_len_term(items):
    n = 0
    t = None
    for x in items:
        if type(x) is Blob:
            t = x.lenterm() if t is None else t + x.lenterm()
        else:
            n += 1
    return I(n) if t is None else z3.simplify(t + n)


class SymSeq(Sym):
    __slots__ = ('items',)
    kind = None
    conc = None

    def __init__(self, items):
        self.items = items

    def norm(self):
        self.items = _norm(self.items)
        return self.items

    @classmethod
    def of(cls, x):
        """items of a concrete or symbolic sequence of this kind."""
        if type(x) is cls:
            return x.norm()
        if cls.kind == 'bytes':
            return list(x)
        return [ord(c) for c in x]

    def flat(self):
        """items with all blobs expanded."""
        items = self.norm()
        while any(type(x) is Blob for x in items):
            for x in items:
                if type(x) is Blob:
                    blob_expand(x)
                    break
            items = self.norm()
        return items

    def sx_len(self):
        return mk_int(seq_len_term(self.norm()))

    def __len__(self):
        n = self.sx_len()
        return n if type(n) is int else n.__index__()

    def __bool__(self):
        n = self.sx_len()
        return bool(n != 0)

    def __iter__(self):
        i = 0
        while True:
            items = self.norm()
            if i >= len(items):
                return
            x = items[i]
            if type(x) is Blob:
                if engine().branch(x.lenterm() == 0):
                    x.parts = []
                    continue
                blob_head(x)
                continue
            yield self.elem(x)
            i += 1

    def _locate(self, i):
        """index (python int >=0) -> element term, or None if out of range."""
        k = 0
        while True:
            items = self.norm()
            if k >= len(items):
                return None
            x = items[k]
            if type(x) is Blob:
                if engine().branch(x.lenterm() == 0):
                    x.parts = []
                else:
                    blob_head(x)
                continue
            if k == i:
                return x
            k += 1

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        if type(i) in (SymInt, SymBool):
            n = self.sx_len()
            i = i.__index__() if type(n) is int else int(i)
        i = int(i.__index__())
        if i < 0:
            items = self.norm()
            k = -1
            # fast path on a byte tail
            j = len(items) - 1
            while j >= 0 and type(items[j]) is not Blob and k > i:
                j -= 1
                k -= 1
            if j >= 0 and type(items[j]) is not Blob and k == i:
                return self.elem(items[j])
            i += len(self)
            if i < 0:
                raise IndexError('index out of range')
        x = self._locate(i)
        if x is None:
            raise IndexError('index out of range')
        return self.elem(x)

    def _slice(self, s):
        items = self.norm()
        has_blob = any(type(x) is Blob for x in items)
        if not has_blob:
            def cv(v):
                return None if v is None else int(v)
            return self.make(items[slice(cv(s.start), cv(s.stop), cv(s.step))])
        if s.step not in (None, 1):
            self.flat()
            return self._slice(s)
        n = seq_len_term(items)

        def pos(v, default):
            if v is None:
                return default
            t = zint(v)
            if engine().branch(t < 0):
                t = z3.simplify(t + n)
                if engine().branch(t < 0):
                    t = I(0)
            if engine().branch(t > n):
                t = n
            return z3.simplify(t)
        a = pos(s.start, I(0))
        b = pos(s.stop, n)
        if engine().branch(b <= a):
            return self.make([])
        _, rest = self._cut(items, a)
        mid, _ = self._cut(rest, z3.simplify(b - a))
        return self.make(mid)

    @staticmethod
    def _cut(items, p):
        """Split items at position term p (0<=p<=len)."""
        e = engine()
        items = list(_norm(items))
        out = []
        p = z3.simplify(p)
        while items:
            if z3.is_int_value(p) and p.as_long() == 0:
                break
            x = items[0]
            if type(x) is not Blob:
                if e.branch(p <= 0):
                    break
                out.append(items.pop(0))
                p = z3.simplify(p - 1)
                continue
            if e.branch(p >= x.lenterm()):
                out.append(items.pop(0))
                p = z3.simplify(p - x.lenterm())
                continue
            if e.branch(p <= 0):
                break
            a, c = blob_split(x, p)
            out.append(a)
            items[0] = c
            break
        return out, items

    def __add__(self, o):
        if isinstance(o, self.conc):
            return self.make(self.norm() + self.of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, self.conc):
            return self.make(self.of(o) + self.norm())
        return NotImplemented

    def __mul__(self, o):
        if is_intlike(o):
            return self.make(self.norm() * int(o))
        return NotImplemented
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, self.conc):
            return seq_eq(self.norm(), self.of(o))
        if self.kind == 'bytes' and isinstance(o, bytearray):
            return seq_eq(self.norm(), list(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    def _order(self, o, strict_lt):
        xs, ys = self.flat(), SymSeq_flat(self, o)
        e = engine()
        for x, y in zip(xs, ys):
            if e.branch(zint(x) == zint(y)):
                continue
            return -1 if e.branch(zint(x) < zint(y)) else 1
        return (len(xs) > len(ys)) - (len(xs) < len(ys))

    def __lt__(self, o):
        return self._order(o, 1) < 0 if isinstance(o, self.conc) else NotImplemented

    def __le__(self, o):
        return self._order(o, 1) <= 0 if isinstance(o, self.conc) else NotImplemented

    def __gt__(self, o):
        return self._order(o, 1) > 0 if isinstance(o, self.conc) else NotImplemented

    def __ge__(self, o):
        return self._order(o, 1) >= 0 if isinstance(o, self.conc) else NotImplemented

    def __hash__(self):
        return hash(self.pin('hash'))

    def pin(self, why):
        """One concrete value (recorded as loss of completeness unless enumerable)."""
        items = self.flat()
        e = engine()
        vals = [x if type(x) is int else e.pin(zint(x), why) for x in items]
        return bytes(vals) if self.kind == 'bytes' else ''.join(map(chr, vals))

    def startswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return self[slice(start, end)].startswith(p)
        if isinstance(p, tuple):
            r = False
            for q in p:
                r = s_or(r, self.startswith(q))
            return r
        if not isinstance(p, self.conc):
            raise TypeError('startswith first arg must be %s' % self.kind)
        ps = self.of(p)
        n = len(ps)
        if any(type(x) is Blob for x in ps):
            ps = type(self)(ps).flat()
            n = len(ps)
        xs = []
        for i in range(n):
            x = self._locate(i)
            if x is None:
                return False
            xs.append(x)
        return seq_eq(xs, ps)

    def endswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return self[slice(start, end)].endswith(p)
        if isinstance(p, tuple):
            r = False
            for q in p:
                r = s_or(r, self.endswith(q))
            return r
        ps = self.of(p)
        xs = self.flat()
        if len(ps) > len(xs):
            return False
        return seq_eq(xs[len(xs) - len(ps):], ps)

    def find(self, sub, start=0, end=None):
        xs = self.flat()
        if is_intlike(sub) and self.kind == 'bytes':
            ps = [sub if type(sub) is int else zint(sub)]
        else:
            ps = type(self)(list(self.of(sub))).flat() if type(sub) is type(self) else self.of(sub)
        n = len(xs)
        start, end, _ = slice(start, end).indices(n)
        for i in range(start, end - len(ps) + 1):
            if seq_eq(xs[i:i + len(ps)], ps):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found' if self.kind == 'str' else 'subsection not found')
        return r

    def rfind(self, sub):
        xs = self.flat()
        ps = self.of(sub)
        for i in range(len(xs) - len(ps), -1, -1):
            if seq_eq(xs[i:i + len(ps)], ps):
                return i
        return -1

    def count(self, sub):
        n = 0
        xs, ps = self.flat(), self.of(sub)
        i = 0
        while i + len(ps) <= len(xs):
            if seq_eq(xs[i:i + len(ps)], ps):
                n += 1
                i += max(1, len(ps))
            else:
                i += 1
        return n

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def split(self, sep=None, maxsplit=-1):
        xs = self.flat()
        out = []
        if sep is None:
            cur = []
            for x in xs:
                if in_set(x, WS if self.kind == 'str' else WSB):
                    if cur:
                        out.append(self.make(cur))
                        cur = []
                else:
                    cur.append(x)
            if cur:
                out.append(self.make(cur))
            return out
        ps = self.of(sep)
        if not ps:
            raise ValueError('empty separator')
        i = last = 0
        while i + len(ps) <= len(xs) and maxsplit != 0:
            if seq_eq(xs[i:i + len(ps)], ps):
                out.append(self.make(xs[last:i]))
                i += len(ps)
                last = i
                maxsplit -= 1
            else:
                i += 1
        out.append(self.make(xs[last:]))
        return out

    def strip(self, chars=None, _l=True, _r=True):
        xs = list(self.flat())
        cs = (WS if self.kind == 'str' else WSB) if chars is None else set(self.of(chars))
        while _l and xs and in_set(xs[0], cs):
            xs.pop(0)
        while _r and xs and in_set(xs[-1], cs):
            xs.pop()
        return self.make(xs)

    def lstrip(self, chars=None):
        return self.strip(chars, True, False)

    def rstrip(self, chars=None):
        return self.strip(chars, False, True)

    def _case(self, lo, hi, delta):
        out = []
        for x in self.flat():
            if type(x) is int:
                if self.kind == 'str':
                    s = chr(x).lower() if delta > 0 else chr(x).upper()
                    out.extend(ord(c) for c in s)
                else:
                    out.append(x + delta if lo <= x <= hi else x)
            else:
                if self.kind == 'str' and engine().branch(x >= 128):
                    v = engine().pin(x, 'case of non-ASCII character')
                    s = chr(v).lower() if delta > 0 else chr(v).upper()
                    out.extend(ord(c) for c in s)
                else:
                    out.append(z3.simplify(z3.If(z3.And(x >= lo, x <= hi), x + delta, x)))
        return self.make(out)

    def lower(self):
        return self._case(65, 90, 32)

    def upper(self):
        return self._case(97, 122, -32)

    def isdigit(self):
        xs = self.flat()
        if not xs:
            return False
        for x in xs:
            if type(x) is not int and self.kind == 'str' and engine().branch(x >= 128):
                x = engine().pin(x, 'isdigit of non-ASCII character')
                if not chr(x).isdigit():
                    return False
            elif not in_set(x, set(range(48, 58))):
                return False
        return True

    def join(self, it):
        return seq_join(self, it)

    def __repr__(self):
        return '<%s %d items>' % (type(self).__name__, len(self.items))


def s_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return mk_bool(z3.Or(zbool(a), zbool(b)))


WS = {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000} \
    | set(range(0x2000, 0x200b))
WSB = {9, 10, 11, 12, 13, 32}


def set_cond(x, cs):
    """z3 condition: element x is in the set of ints cs."""
    cs = sorted(cs)
    ors = []
    i = 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
            j += 1
        ors.append(x == cs[i] if i == j else z3.And(x >= cs[i], x <= cs[j]))
        i = j + 1
    return z3.Or(ors) if ors else z3.BoolVal(False)


def in_set(x, cs):
    if type(x) is int:
        return x in cs
    return engine().branch(set_cond(zint(x), cs))


def SymSeq_flat(self, o):
    if type(o) is type(self):
        return o.flat()
    return self.of(o)


class SymBytes(SymSeq):
    __slots__ = ()
    kind = 'bytes'
    conc = bytes
    __class__ = property(lambda self: bytes)

    @staticmethod
    def make(items):
        return mk_bytes(items)

    @staticmethod
    def elem(x):
        return x if type(x) is int else mk_int(x)

    def hex(self, *a):
        if a:
            return self.pin('hex with separator').hex(*a)
        e = engine()
        out = []
        for x in self.norm():
            if type(x) is int:
                out.extend(ord(c) for c in '%02x' % x)
            elif type(x) is Blob:
                key = ('hexblob', id(x))
                if key not in e.memo:
                    e.memo[key] = (Blob('hex(%s)' % x.name, z3.simplify(2 * x.lenterm()), 'str', ('hexof', x)), x)
                out.append(e.memo[key][0])
            else:
                for d in (z3.simplify(x / 16), z3.simplify(x % 16)):
                    c = z3.simplify(z3.If(d < 10, d + 48, d + 87))
                    e.keep.append(c)
                    e.memo[('nib', c.get_id())] = d
                    out.append(c)
        return mk_str(out)

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if errors != 'strict' or enc not in ('utf-8', 'utf8', 'ascii', 'latin-1'):
            return self.pin('decode').decode(encoding, errors)
        e = engine()
        items = self.norm()
        if any(type(x) is Blob for x in items):
            if all(type(x) is not Blob or (x.info and x.info[0] == 'utf8of') for x in items):
                return mk_str(sum(([x.info[1]] if type(x) is Blob else [x] for x in items), []))
            items = self.flat()
        if enc == 'latin-1':
            return mk_str(items)

        def bad(i, why):
            raise UnicodeDecodeError(enc, b'?' * max(1, len(items)), min(i, len(items)), min(i + 1, len(items)), why)
        out = []
        i = 0

        def cont(k):
            if k >= len(items):
                bad(i, 'unexpected end of data')
            x = zint(items[k])
            return x
        while i < len(items):
            x = items[i]
            if type(x) is not int:
                mm = e.memo.get(('u8', x.get_id()))
                if mm is not None and all(
                        i + k < len(items) and not isinstance(items[i + k], int) and
                        items[i + k].get_id() == y for k, y in enumerate(mm[1])):
                    out.append(mm[0])
                    i += len(mm[1])
                    continue
            x = zint(x)
            if e.branch(x < 0x80):
                out.append(x)
                i += 1
                continue
            if enc == 'ascii':
                bad(i, 'ordinal not in range(128)')
            if e.branch(z3.Or(x < 0xC2, x > 0xF4)):
                bad(i, 'invalid start byte')
            if e.branch(x < 0xE0):
                y = cont(i + 1)
                if not e.branch(z3.And(y >= 0x80, y <= 0xBF)):
                    bad(i, 'invalid continuation byte')
                out.append((x - 0xC0) * 64 + (y - 0x80))
                i += 2
                continue
            if e.branch(x < 0xF0):
                y = cont(i + 1)
                lo = z3.If(x == 0xE0, I(0xA0), I(0x80))
                hi = z3.If(x == 0xED, I(0x9F), I(0xBF))
                if not e.branch(z3.And(y >= lo, y <= hi)):
                    bad(i, 'invalid continuation byte')
                z = cont(i + 2)
                if not e.branch(z3.And(z >= 0x80, z <= 0xBF)):
                    bad(i, 'invalid continuation byte')
                out.append((x - 0xE0) * 4096 + (y - 0x80) * 64 + (z - 0x80))
                i += 3
                continue
            y = cont(i + 1)
            lo = z3.If(x == 0xF0, I(0x90), I(0x80))
            hi = z3.If(x == 0xF4, I(0x8F), I(0xBF))
            if not e.branch(z3.And(y >= lo, y <= hi)):
                bad(i, 'invalid continuation byte')
            for k in (2, 3):
                z = cont(i + k)
                if not e.branch(z3.And(z >= 0x80, z <= 0xBF)):
                    bad(i, 'invalid continuation byte')
            out.append((x - 0xF0) * 262144 + (y - 0x80) * 4096 + (zint(items[i + 2]) - 0x80) * 64
                       + (zint(items[i + 3]) - 0x80))
            i += 4
        return mk_str(out)

    def __bytes__(self):
        return self.pin('bytes()')

    def __str__(self):
        return str(self.pin('str(bytes)'))

    def __format__(self, spec):
        return format(self.pin('format(bytes)'), spec)

    def __buffer__(self, flags):
        return memoryview(self.pin('buffer'))

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__') or not hasattr(b'', name):
            raise AttributeError("'bytes' object has no attribute '%s'" % name)
        return getattr(self.pin('bytes.' + name), name)


SymBytes_t = SymBytes


class SymStr(SymSeq):
    __slots__ = ()
    kind = 'str'
    conc = str
    __class__ = property(lambda self: str)

    @staticmethod
    def make(items):
        return mk_str(items)

    @staticmethod
    def elem(x):
        return chr(x) if type(x) is int else mk_str([x])

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if errors != 'strict' or enc not in ('utf-8', 'utf8', 'ascii', 'latin-1'):
            return self.pin('encode').encode(encoding, errors)
        e = engine()
        out = []
        for i, x in enumerate(list(self.norm())):
            if type(x) is int:
                out.extend(chr(x).encode(encoding))
                continue
            if type(x) is Blob:
                key = ('u8blob', id(x))
                if key not in e.memo:
                    if x.info and x.info[0] == 'ascii' or x.info and x.info[0] == 'hexof':
                        ln = x.ln
                    else:
                        ln = z3.Int(e.fresh_name('u8len'))
                        e.add(z3.And(ln >= x.lenterm(), ln <= 4 * x.lenterm()))
                    e.memo[key] = (Blob('utf8(%s)' % x.name, ln, 'bytes', ('utf8of', x)), x)
                out.append(e.memo[key][0])
                continue
            if e.branch(x < 0x80):
                out.append(x)
                continue
            if enc == 'ascii':
                raise UnicodeEncodeError(enc, '?' * (i + 1), i, i + 1, 'ordinal not in range(128)')
            if enc == 'latin-1':
                if e.branch(x < 256):
                    out.append(x)
                    continue
                raise UnicodeEncodeError(enc, '?' * (i + 1), i, i + 1, 'ordinal not in range(256)')
            if e.branch(x < 0x800):
                bs = [0xC0 + x / 64, 0x80 + x % 64]
            elif e.branch(z3.And(x >= 0xD800, x <= 0xDFFF)):
                raise UnicodeEncodeError(enc, '?' * (i + 1), i, i + 1, 'surrogates not allowed')
            elif e.branch(x < 0x10000):
                bs = [0xE0 + x / 4096, 0x80 + (x / 64) % 64, 0x80 + x % 64]
            else:
                bs = [0xF0 + x / 262144, 0x80 + (x / 4096) % 64, 0x80 + (x / 64) % 64, 0x80 + x % 64]
            bs = [z3.simplify(b) for b in bs]
            e.keep.extend(bs)
            e.memo[('u8', bs[0].get_id())] = (x, [b.get_id() for b in bs])
            out.extend(bs)
        return mk_bytes(out)

    def __str__(self):
        return self.pin('str()')

    def __format__(self, spec):
        return format(self.pin('format(str)'), spec)

    def __mod__(self, o):
        return self.pin('%') % o

    def title(self):
        return self.pin('str.title').title()

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__') or not hasattr('', name):
            raise AttributeError("'str' object has no attribute '%s'" % name)
        return getattr(self.pin('str.' + name), name)


def mk_bytes(items):
    out = []
    allc = True
    for x in items:
        if type(x) is int:
            out.append(x)
        elif type(x) is Blob:
            if x.parts is not None:
                sub = _norm(x.parts)
                out.extend(sub)
                allc = allc and all(type(y) is int for y in sub)
            else:
                out.append(x)
                allc = False
        else:
            x = z3.simplify(zint(x))
            if z3.is_int_value(x):
                out.append(x.as_long())
            else:
                out.append(x)
                allc = False
    if allc:
        return bytes(out)
    return SymBytes(out)


def mk_str(items):
    out = []
    allc = True
    for x in items:
        if type(x) is int:
            out.append(x)
        elif type(x) is Blob:
            if x.parts is not None:
                sub = _norm(x.parts)
                out.extend(sub)
                allc = allc and all(type(y) is int for y in sub)
            else:
                out.append(x)
                allc = False
        else:
            x = z3.simplify(zint(x))
            if z3.is_int_value(x):
                out.append(x.as_long())
            else:
                out.append(x)
                allc = False
    if allc:
        return ''.join(map(chr, out))
    return SymStr(out)


def seq_join(sep, it):
    parts = list(it)
    isb = isinstance(sep, bytes)
    cls = SymBytes if isb else SymStr
    out = []
    for i, p in enumerate(parts):
        if not isinstance(p, (bytes, bytearray) if isb else str):
            raise TypeError('sequence item %d: expected %s instance, %s found' %
                            (i, 'a bytes-like object' if isb else 'str', type(p).__name__))
        if i:
            out.extend(cls.of(sep))
        out.extend(cls.of(p) if not isinstance(p, bytearray) else list(p))
    return cls.make(out)


def m_bytes(x=b'', *a):
    """bytes(x) for symbolic x."""
    if a:
        if isinstance(x, str):
            return x.encode(*a)
        raise TypeError('encoding without a string argument')
    if isinstance(x, bytes):
        return x
    if is_intlike(x):
        n = int(x)
        return bytes(n)
    if isinstance(x, str):
        raise TypeError('string argument without an encoding')
    if hasattr(type(x), '__bytes__'):
        return x.__bytes__()
    out = []
    for v in x:
        if not is_intlike(v):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
        t = zint(v)
        if type(v) is int:
            if not 0 <= v <= 255:
                raise ValueError('bytes must be in range(0, 256)')
            out.append(v)
            continue
        if not engine().branch(z3.And(t >= 0, t <= 255)):
            raise ValueError('bytes must be in range(0, 256)')
        out.append(t)
    return mk_bytes(out)


def is_sym(x):
    return type(x) in SYMTYPES


SYMTYPES = frozenset((SymInt, SymBool, SymBytes, SymStr, SymFrac))
