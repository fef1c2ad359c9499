"""Models of builtins / C functions for symbolic arguments, and the call dispatcher."""
import builtins
import collections
import copy
import enum
import functools
import hashlib
import json
import re
import string
import struct
import types

import z3

from . import values as V
from .core import engine, Control
from .values import (SymInt, SymBool, SymBytes, SymStr, SymFrac, Blob, SYMTYPES, mk_int, mk_bool,
                     mk_bytes, mk_str, zint, zbool, is_intlike, in_set, set_cond, seq_eq, I)

BuiltinFunctionType = types.BuiltinFunctionType
MethodWrapperType = types.MethodWrapperType
MethodDescriptorType = types.MethodDescriptorType
ClassMethodDescriptorType = types.ClassMethodDescriptorType
WrapperDescriptorType = types.WrapperDescriptorType
PYFUNC = (types.FunctionType, types.MethodType)


def has_sym(x, depth=2):
    t = type(x)
    if t in SYMTYPES:
        return True
    if depth:
        if t in (list, tuple, set, frozenset):
            return any(has_sym(y, depth - 1) for y in x)
        if t is dict or t is collections.OrderedDict:
            return any(has_sym(y, depth - 1) for y in x.values()) or \
                (engine().symkeys and any(type(k) in SYMTYPES for k in x))
    return False


def pin_value(x, why):
    t = type(x)
    if t is SymInt:
        return engine().pin(x.t, why)
    if t is SymBool:
        return bool(x)
    if t in (SymBytes, SymStr):
        return x.pin(why)
    if t is list:
        return [pin_value(y, why) for y in x]
    if t is tuple:
        return tuple(pin_value(y, why) for y in x)
    if t is dict:
        return {pin_value(k, why): pin_value(v, why) for k, v in x.items()}
    return x


# ---------------------------------------------------------------- simple builtins
def m_len(x):
    if type(x) in (SymBytes, SymStr):
        return x.sx_len()
    f = getattr(type(x), '__len__', None)
    if type(f) is types.FunctionType:
        return f(x)          # may return a symbolic length
    return len(x)


def m_type(*a):
    if len(a) == 1 and type(a[0]) in SYMTYPES:
        return a[0].__class__
    return type(*a)


def m_bool(x=False):
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return mk_bool(x.t != 0)
    if t in (SymBytes, SymStr):
        n = x.sx_len()
        return n != 0
    return bool(x)


def opaque_str(what, key=None, info=None, lo=0, hi=4096):
    e = engine()
    if key is not None and key in e.memo:
        return e.memo[key][0]
    ln = z3.Int(e.fresh_name('slen'))
    e.add(z3.And(ln >= lo, ln <= hi))
    r = SymStr([Blob(e.fresh_name(what), ln, 'str', info or ('ascii', None))])
    if key is not None:
        e.memo[key] = (r, info)
    return r


def _text(r, name):
    if not isinstance(r, (str, SymStr)):
        raise TypeError('%s did not return a text (type %s)' % (name, type(r).__name__))
    return r


def m_str(*a, **kw):
    if len(a) != 1 or kw:
        if a and type(a[0]) is SymBytes:
            return a[0].decode(*a[1:], **kw)
        return str(*a, **kw)
    x = a[0]
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        engine().keep.append(x.t)
        return opaque_str('str(int)', ('strof', x.t.get_id()), ('strof', x.t), 1, 400)
    if t is SymBool:
        return 'True' if x else 'False'
    if t is SymBytes:
        return opaque_str('str(bytes)')
    f = getattr(t, '__str__', None)
    if type(f) is types.FunctionType:
        return _text(f(x), '__str__')
    if isinstance(x, BaseException) and f is BaseException.__str__:
        if len(x.args) == 0:
            return ''
        if len(x.args) == 1:
            return m_str(x.args[0])
    if has_sym(x, 4) or isinstance(x, BaseException) and has_sym(x.args, 3):
        return opaque_str('str(obj)')
    if f is object.__str__:
        r = getattr(t, '__repr__', None)
        if type(r) is types.FunctionType:
            return _text(r(x), '__repr__')
    try:
        return str(x)
    except TypeError as e:
        if 'returned non-string' in e.args[0]:      # a symbolic text deep inside
            return opaque_str('str(obj)')
        raise


def m_repr(x):
    t = type(x)
    if t in SYMTYPES:
        return opaque_str('repr')
    f = getattr(t, '__repr__', None)
    if type(f) is types.FunctionType:
        return _text(f(x), '__repr__')
    if has_sym(x, 4) or isinstance(x, BaseException) and has_sym(x.args, 3):
        return opaque_str('repr')
    try:
        return repr(x)
    except TypeError as e:
        if 'returned non-string' in e.args[0]:
            return opaque_str('repr')
        raise


def m_format(x, spec=''):
    t = type(x)
    if t in SYMTYPES:
        if spec == '' and t is not SymFrac:
            return m_str(x)
        if t is SymInt and spec in ('d',):
            return m_str(x)
        if t is SymInt and spec in ('x', '#x'):
            h = m_hex(x)
            return h if spec == '#x' else h[2:]
        return opaque_str('format')
    if spec == '':
        f = getattr(t, '__format__', None)
        if f is object.__format__:
            return m_str(x)
        if t in (list, tuple, dict, set):
            return m_str(x)
        if isinstance(x, BaseException):
            return m_str(x)
    return format(x, spec)


def sx_fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 'r':
            v = m_repr(v)
        elif conv == 's':
            v = m_str(v)
        elif conv == 'a':
            v = ascii(v)
        s = m_format(v, spec if type(spec) is not SymStr else spec.pin('format spec'))
        sym = sym or type(s) is SymStr
        out.append(s)
    if not sym:
        return ''.join(out)
    return V.seq_join('', out)


def m_strformat(fmt, *a, **kw):
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        else:
            v, _ = string.Formatter().get_field(field, a, kw)
        if conv == 'r':
            v = m_repr(v)
        out.append(m_format(v, spec or ''))
    return V.seq_join('', out)


def _digit_val(x, base):
    """value of a digit element (term/int) -> (cond, value)"""
    x = zint(x)
    conds = []
    val = I(0)
    top = min(base, 10)
    c = z3.And(x >= 48, x < 48 + top)
    conds.append(c)
    val = x - 48
    if base > 10:
        cu = z3.And(x >= 65, x < 65 + base - 10)
        cl = z3.And(x >= 97, x < 97 + base - 10)
        conds += [cu, cl]
        val = z3.If(c, x - 48, z3.If(cu, x - 55, x - 87))
    return z3.Or(conds), val


def parse_int(s, base=10):
    """int(str, base) for symbolic text (ASCII digits; non-ASCII digits are pinned)."""
    e = engine()
    isb = isinstance(s, bytes)
    items = s.norm()
    if len(items) == 1 and type(items[0]) is Blob and items[0].info and items[0].info[0] == 'strof' and base == 10:
        return mk_int(items[0].info[1])
    if any(type(x) is Blob for x in items):
        items = s.flat()
    xs = list(items)

    def bad():
        raise ValueError('invalid literal for int() with base %d' % base)
    if not isb:
        for i, x in enumerate(xs):
            if type(x) is not int and e.branch(x >= 128):
                # non-ASCII decimal digits are legal for int(); fall back to one value
                return int(mk_str(xs).pin('int() of non-ASCII text'), base)
    ws = V.WSB | ({28, 29, 30, 31} if not isb else set())
    while xs and in_set(xs[0], ws):
        xs.pop(0)
    while xs and in_set(xs[-1], ws):
        xs.pop()
    if not xs:
        bad()
    neg = False
    if in_set(xs[0], {43}):
        xs.pop(0)
    elif in_set(xs[0], {45}):
        neg = True
        xs.pop(0)
    if not xs:
        bad()
    prefixed = False
    if base in (0, 16, 8, 2) and len(xs) >= 2 and in_set(xs[0], {48}):
        for b, cs in ((16, {88, 120}), (8, {79, 111}), (2, {66, 98})):
            if base in (0, b) and in_set(xs[1], cs):
                base0, prefixed = b, True
                xs = xs[2:]
                if base == 0:
                    base = base0
                break
    if base == 0:
        base = 10
        if len(xs) > 1 and in_set(xs[0], {48}):
            # leading zeros only allowed for zero
            for x in xs[1:]:
                if not in_set(x, {48, 95}):
                    bad()
    if prefixed and xs and in_set(xs[0], {95}):
        xs.pop(0)
    if not xs:
        bad()
    # underscores
    und = z3.simplify(z3.Or([zint(x) == 95 for x in xs]))
    if e.branch(und):
        ys = []
        last = True
        for x in xs:
            if in_set(x, {95}):
                if last:
                    bad()
                last = True
            else:
                ys.append(x)
                last = False
        if last:
            bad()
        xs = ys
    conds, val = [], I(0)
    for x in xs:
        if type(x) is not int:
            nib = e.memo.get(('nib', x.get_id()))
            if nib is not None and base == 16:
                val = val * base + nib
                continue
        c, v = _digit_val(x, base)
        conds.append(c)
        val = val * base + v
    if conds and not e.branch(z3.And(conds)):
        bad()
    return mk_int(-val if neg else val)


def m_int(*a, **kw):
    if not a:
        return int(*a, **kw)
    x = a[0]
    t = type(x)
    if t in SYMTYPES:
        base = a[1] if len(a) > 1 else kw.get('base')
        if t is SymInt or t is SymBool:
            if base is not None:
                raise TypeError("int() can't convert non-string with explicit base")
            return x if t is SymInt else mk_int(zint(x))
        if t is SymFrac:
            return x.trunc()
        return parse_int(x, 10 if base is None else int(base))
    f = getattr(t, '__int__', None)
    if type(f) is types.FunctionType:
        return f(x)
    return int(*a, **kw)


def m_hash(x):
    t = type(x)
    if t in (SymBytes, SymStr):
        if all(type(i) is int for i in x.norm()):
            return hash(x)
        # an uninterpreted function of the value: equal values give equal hashes
        e = engine()
        same = []
        for y, h in e.memo.setdefault('hashes', []):
            if type(x) is not type(y):
                continue
            q = seq_eq(x.norm(), y.norm())
            if q is True:
                return h
            if q is not False:
                same.append((q, h))
        h = SymInt(z3.Int(e.fresh_name('hash')))
        for q, g in same:
            e.add(z3.Implies(zbool(q), h.t == g.t))
        e.memo['hashes'].append((x, h))
        return h
    if t is SymInt:
        return x
    f = getattr(t, '__hash__', None)
    if type(f) is types.FunctionType:
        return f(x)
    return hash(x)


def hex_digits(t):
    """elements of hex(t), by forking on the sign and the number of digits"""
    e = engine()
    neg = e.branch(t < 0)
    if neg:
        t = z3.simplify(-t)
    k = 1
    while not e.branch(t < (1 << (4 * k))):
        k += 1
        if k > 300:
            e.mark_partial('hex() beyond 300 digits')
            break
    digs = []
    for i in range(k):
        d = z3.simplify((t / (1 << (4 * (k - 1 - i)))) % 16)
        c = z3.simplify(z3.If(d < 10, d + 48, d + 87))
        e.keep.append(c)
        e.memo[('nib', c.get_id())] = d
        digs.append(c)
    return [ord(ch) for ch in ('-0x' if neg else '0x')] + digs


V.EXPAND['hexof'] = hex_digits


def m_hex(x):
    """the text is left symbolic until somebody looks into it"""
    if type(x) in (SymInt, SymBool):
        t = zint(x)
        engine().keep.append(t)
        return opaque_str('hex', ('hexof', t.get_id()), ('hexof', t), 3, 400)
    return hex(x)


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        while bool(i < self.stop if self.step > 0 else i > self.stop):
            yield i
            i = i + self.step

    def sx_len(self):
        n = (self.stop - self.start + self.step - (1 if self.step > 0 else -1)) // self.step
        return n if n > 0 else 0

    def __len__(self):
        return int(self.sx_len())

    def __getitem__(self, i):
        n = self.sx_len()
        if i < 0:
            i = i + n
        if not (0 <= i and i < n):
            raise IndexError('range object index out of range')
        return self.start + i * self.step

    def __contains__(self, v):
        return bool(self.start <= v and v < self.stop) if self.step == 1 else any(v == x for x in self)

    def __reversed__(self):
        n = int(self.sx_len())
        return (self.start + i * self.step for i in range(n - 1, -1, -1))


def m_range(*a):
    if not any(type(x) in SYMTYPES for x in a):
        return range(*a)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    step = int(step)
    if step == 0:
        raise ValueError('range() arg 3 must not be zero')
    return SymRange(start, stop, step)


def _minmax(name, f):
    def m(*a, **kw):
        if len(a) == 2 and not kw and all(is_intlike(x) for x in a) and any(type(x) in SYMTYPES for x in a):
            x, y = zint(a[0]), zint(a[1])
            return mk_int(z3.If(x <= y, x, y) if name == 'min' else z3.If(x >= y, x, y))
        return f(*a, **kw)
    return m


def m_chr(x):
    if type(x) in (SymInt, SymBool):
        t = zint(x)
        if not engine().branch(z3.And(t >= 0, t < 0x110000)):
            raise ValueError('chr() arg not in range(0x110000)')
        return mk_str([t])
    return chr(x)


def m_ord(x):
    if type(x) in (SymStr, SymBytes):
        xs = x.flat()
        if len(xs) != 1:
            raise TypeError('ord() expected a character')
        return xs[0] if type(xs[0]) is int else mk_int(xs[0])
    return ord(x)


def m_getattr(o, name, *d):
    if type(name) is SymStr:
        for n in dir(o):
            if name == n:
                return getattr(o, n)
        if d:
            return d[0]
        raise AttributeError('no such attribute')
    return getattr(o, name, *d)


def m_hasattr(o, name):
    if type(name) is SymStr:
        for n in dir(o):
            if name == n:
                return True
        return False
    return hasattr(o, name)


def m_round(x, *a):
    if type(x) in (SymInt, SymBool) and not a:
        return x
    return round(*(pin_value(y, 'round') for y in (x,) + a))


def m_bytearray(*a):
    return bytearray(*(pin_value(x, 'bytearray') for x in a))


def m_fromhex(s):
    if type(s) is not SymStr:
        return bytes.fromhex(s)
    e = engine()
    items = s.norm()
    if any(type(x) is Blob for x in items):
        if all(type(x) is not Blob or x.info and x.info[0] == 'hexof' for x in items):
            out, run = [], []
            for x in list(items) + [None]:
                if x is None or type(x) is Blob:
                    if run:
                        r = m_fromhex(mk_str(run))
                        out.extend(SymBytes.of(r))
                        run = []
                    if x is not None:
                        out.append(x.info[1])
                else:
                    run.append(x)
            return mk_bytes(out)
        items = s.flat()
    xs = list(items)
    isspace = [set_cond(zint(x), V.WSB) for x in xs if type(x) is not int or x in V.WSB]
    if isspace and e.branch(z3.Or(isspace)):
        ys, i = [], 0
        while i < len(xs):
            if in_set(xs[i], V.WSB):
                i += 1
                continue
            if i + 1 >= len(xs) or in_set(xs[i + 1], V.WSB):
                raise ValueError('non-hexadecimal number found in fromhex()')
            ys += xs[i:i + 2]
            i += 2
        xs = ys
    vals, conds = [], []
    for x in xs:
        if type(x) is int:
            c = chr(x)
            if c not in string.hexdigits:
                raise ValueError('non-hexadecimal number found in fromhex()')
            vals.append(I(int(c, 16)))
            continue
        nib = e.memo.get(('nib', x.get_id()))
        if nib is not None:
            vals.append(nib)
            continue
        c, v = _digit_val(x, 16)
        conds.append(c)
        vals.append(v)
    if conds and not e.branch(z3.And(conds)):
        raise ValueError('non-hexadecimal number found in fromhex()')
    if len(vals) % 2:
        raise ValueError('non-hexadecimal number found in fromhex()')
    out = []
    for i in range(0, len(vals), 2):
        hi, lo = vals[i], vals[i + 1]
        b = _same_byte(hi, lo)
        out.append(b if b is not None else hi * 16 + lo)
    return mk_bytes(out)


def _same_byte(hi, lo):
    """(x/16, x%16) -> x"""
    try:
        if hi.decl().kind() == z3.Z3_OP_IDIV and lo.decl().kind() == z3.Z3_OP_MOD \
                and hi.arg(0).eq(lo.arg(0)) and hi.arg(1).as_long() == 16 and lo.arg(1).as_long() == 16:
            return hi.arg(0)
    except Exception:
        pass
    return None


# ---------------------------------------------------------------- hashing
class SymHash:
    def __init__(self, name, data=b'', size=32):
        self.name, self.data, self.digest_size = name, data, size
        self.block_size = 136

    def update(self, d):
        self.data = self.data + d

    def copy(self):
        return SymHash(self.name, self.data, self.digest_size)

    def digest(self):
        e = engine()
        pre = SymBytes.of(self.data)
        if type(self.data) is not SymBytes:
            d = getattr(_hashlib_real, self.name)(bytes(self.data)).digest()
            V.DIGEST_REGISTRY[(self.name, d)] = bytes(self.data)
            return d
        for p, blob in e.memo.setdefault(('digests', self.name), []):
            if seq_same(p, pre):
                return SymBytes([blob])
        blob = Blob(e.fresh_name(self.name), self.digest_size, 'bytes', (self.name, pre))
        e.memo[('digests', self.name)].append((pre, blob))
        return SymBytes([blob])

    def hexdigest(self):
        d = self.digest()
        return d.hex()


def seq_same(a, b):
    a, b = V._norm(a), V._norm(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if type(x) is int or type(y) is int:
            if type(x) is not int or type(y) is not int or x != y:
                return False
            continue
        if type(x) is Blob or type(y) is Blob:
            return False
        if not x.eq(y):
            return False
    return True


class _Real:
    pass


_hashlib_real = _Real()
HASHES = {}
for _n, _sz in (('sha3_256', 32), ('sha256', 32), ('sha512', 64), ('sha3_512', 64), ('blake2b', 64), ('md5', 16),
                ('sha1', 20)):
    _f = getattr(hashlib, _n)
    setattr(_hashlib_real, _n, _f)
    V.DIGESTS[_n] = _sz

    def _mk(_n, _sz):
        def h(data=b'', **kw):
            return SymHash(_n, data, _sz)
        return h
    HASHES[_f] = _mk(_n, _sz)


# ---------------------------------------------------------------- struct
def _parse_fmt(fmt):
    order = 'big'
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if fmt[:1] in '<>!=@':
        order = 'little' if fmt[0] in '<=@' else 'big'
        native = fmt[0] == '@'
        fmt = fmt[1:]
    else:
        native = True
        order = 'little'
    out = []
    for n, c in re.findall(r'(\d*)([a-zA-Z?])', fmt):
        out.append((int(n) if n else None, c))
    return order, native, out


_SIZES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
          'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def struct_pack(fmt, *args):
    order, native, fields = _parse_fmt(fmt)
    if native and len(fields) > 1:
        return struct.pack(fmt, *(pin_value(a, 'native struct') for a in args))
    args = list(args)
    need = sum(1 if c == 's' else 0 if c == 'x' else (n if n is not None else 1) for n, c in fields)
    if need != len(args):
        raise struct.error('pack expected %d items for packing (got %d)' % (need, len(args)))
    out = b''
    for n, c in fields:
        if c == 'x':
            out = out + b'\x00' * (1 if n is None else n)
        elif c == 's':
            n = 1 if n is None else n
            v = args.pop(0)
            if not isinstance(v, (bytes, bytearray)):
                raise struct.error("argument for 's' must be a bytes object")
            ln = m_len(v)
            if ln >= n:
                out = out + v[:n]
            else:
                out = out + v + b'\x00' * int(n - ln)
        elif c == '?':
            for _ in range(1 if n is None else n):
                v = m_bool(args.pop(0))
                out = out + mk_bytes([z3.If(zbool(v), I(1), I(0))])
        else:
            sz, signed = _SIZES[c]
            for _ in range(1 if n is None else n):
                v = args.pop(0)
                if not is_intlike(v):
                    raise struct.error('required argument is not an integer')
                try:
                    out = out + V.as_symint(v).to_bytes(sz, order, signed=signed)
                except OverflowError:
                    raise struct.error('argument out of range')
    return out


def struct_unpack(fmt, buf):
    order, native, fields = _parse_fmt(fmt)
    if native and len(fields) > 1:
        return struct.unpack(fmt, pin_value(buf, 'native struct'))
    size = struct.calcsize(fmt)
    if m_len(buf) != size:
        raise struct.error('unpack requires a buffer of %d bytes' % size)
    out, pos = [], 0
    for n, c in fields:
        if c == 'x':
            pos += 1 if n is None else n
        elif c == 's':
            n = 1 if n is None else n
            out.append(buf[pos:pos + n])
            pos += n
        elif c == '?':
            for _ in range(1 if n is None else n):
                out.append(mk_bool(zint(buf[pos]) != 0))
                pos += 1
        else:
            sz, signed = _SIZES[c]
            for _ in range(1 if n is None else n):
                out.append(V.int_from_bytes(buf[pos:pos + sz], order, signed))
                pos += sz
    return tuple(out)


# ---------------------------------------------------------------- regular expressions
try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:                                     # pragma: no cover
    import sre_parse
    import sre_constants as sre_c


class Unsupported(Exception):
    pass


def _cls_cond(x, items):
    neg = False
    conds = []
    x = zint(x)
    for op, av in items:
        if op is sre_c.NEGATE:
            neg = True
        elif op is sre_c.LITERAL:
            conds.append(x == av)
        elif op is sre_c.RANGE:
            conds.append(z3.And(x >= av[0], x <= av[1]))
        elif op is sre_c.CATEGORY:
            conds.append(_cat_cond(x, av))
        else:
            raise Unsupported(str(op))
    c = z3.Or(conds)
    return z3.Not(c) if neg else c


def _cat_cond(x, av):
    e = engine()
    if not z3.is_int_value(x) and e.branch(x >= 128):
        raise Unsupported('category on non-ASCII character')
    if av is sre_c.CATEGORY_DIGIT:
        return z3.And(x >= 48, x <= 57)
    if av is sre_c.CATEGORY_WORD:
        return z3.Or(z3.And(x >= 48, x <= 57), z3.And(x >= 65, x <= 90), x == 95, z3.And(x >= 97, x <= 122))
    if av is sre_c.CATEGORY_SPACE:
        return set_cond(x, V.WS)
    raise Unsupported(str(av))


class SymMatch:
    def __init__(self, s, start, end, groups):
        self.s, self.st, self.en, self.g = s, start, end, groups

    def group(self, *ns):
        if not ns:
            ns = (0,)
        r = []
        for n in ns:
            if n == 0:
                r.append(self.s[self.st:self.en])
            else:
                sp = self.g.get(n)
                r.append(None if sp is None else self.s[sp[0]:sp[1]])
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def start(self, n=0):
        return self.st if n == 0 else self.g[n][0]

    def end(self, n=0):
        return self.en if n == 0 else self.g[n][1]

    def span(self, n=0):
        return (self.start(n), self.end(n))

    def groups(self):
        return tuple(self.group(i) for i in sorted(self.g))


def _re_match(pat, flags, s, pos, full):
    """backtracking matcher over symbolic text; every character test is a solver-decided branch."""
    e = engine()
    xs = s.flat()
    if flags & ~(re.UNICODE):
        raise Unsupported('regex flags')
    n = len(xs)

    def single(op, av, x):
        if op is sre_c.LITERAL:
            return z3.simplify(zint(x) == av)
        if op is sre_c.NOT_LITERAL:
            return z3.simplify(zint(x) != av)
        if op is sre_c.IN:
            return z3.simplify(_cls_cond(x, av))
        if op is sre_c.ANY:
            return z3.simplify(zint(x) != 10)
        raise Unsupported(str(op))

    def m(seq, i, groups, k):
        """match node list at i then continuation k(i, groups) -> result or None"""
        if not seq:
            return k(i, groups)
        (op, av), rest = seq[0], seq[1:]
        if op in (sre_c.LITERAL, sre_c.NOT_LITERAL, sre_c.IN, sre_c.ANY):
            if i < n and e.branch(single(op, av, xs[i])):
                return m(rest, i + 1, groups, k)
            return None
        if op is sre_c.AT:
            if av in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING):
                return m(rest, i, groups, k) if i == 0 else None
            if av is sre_c.AT_END:
                if i == n or (i == n - 1 and e.branch(z3.simplify(zint(xs[i]) == 10))):
                    return m(rest, i, groups, k)
                return None
            if av is sre_c.AT_END_STRING:
                return m(rest, i, groups, k) if i == n else None
            raise Unsupported(str(av))
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(cnt, i, groups):
                def more():
                    if cnt >= n + 1 + (lo if lo < 1000 else 0):
                        return None
                    if hi is not sre_c.MAXREPEAT and cnt >= hi:
                        return None
                    return m(sub, i, groups, lambda j, g: rep(cnt + 1, j, g) if j > i or cnt < lo else None)
                if cnt < lo:
                    return more()
                if op is sre_c.MAX_REPEAT:
                    r = more()
                    return r if r is not None else m(rest, i, groups, k)
                r = m(rest, i, groups, k)
                return r if r is not None else more()
            return rep(0, i, groups)
        if op is sre_c.SUBPATTERN:
            gid, add, dele, sub = av
            if add or dele:
                raise Unsupported('inline flags')

            def kk(j, g):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, j)
                return m(rest, j, g, k)
            return m(list(sub), i, groups, kk)
        if op is sre_c.BRANCH:
            for alt in av[1]:
                r = m(list(alt), i, groups, lambda j, g: m(rest, j, g, k))
                if r is not None:
                    return r
            return None
        raise Unsupported(str(op))

    def fin(j, g):
        if full and j != n:
            return None
        return (j, g)
    r = m(list(pat), pos, {}, fin)
    if r is None:
        return None
    return SymMatch(s, pos, r[0], r[1])


def regex(kind, pattern, s, flags=0):
    if isinstance(pattern, re.Pattern):
        flags = pattern.flags & ~re.UNICODE
        pattern = pattern.pattern
    try:
        pat = sre_parse.parse(pattern, flags)
        if kind == 'search':
            for i in range(len(s.flat()) + 1):
                r = _re_match(pat, flags, s, i, False)
                if r is not None:
                    return r
            return None
        return _re_match(pat, flags, s, 0, kind == 'fullmatch')
    except Unsupported as ex:
        engine().mark_partial('regex: %s' % ex)
        return getattr(re, kind)(pattern, s.pin('regex'), flags)


def _m_re(kind):
    real = getattr(re, kind)

    def f(pattern, s, flags=0):
        if type(s) in (SymStr, SymBytes):
            return regex(kind, pattern, s, flags)
        return real(pattern, s, flags)
    return real, f


# ---------------------------------------------------------------- containers
def _is_plain_dict(d):
    return isinstance(d, dict) and type(d).__getitem__ in (dict.__getitem__, collections.OrderedDict.__getitem__)


def dict_find(d, k):
    """-> (found, actual key) by solver-decided equality."""
    if not has_symkey(d) and type(k) not in SYMTYPES:
        return (k in d, k)
    for q in list(dict.keys(d)):
        if q is k:
            return True, q
        r = (q == k)
        if r is True or (r is not False and r is not NotImplemented and bool(r)):
            return True, q
    return False, k


def has_symkey(d):
    return engine().symkeys and any(type(k) in (SymBytes, SymStr, SymInt) for k in dict.keys(d))


def sx_getitem(o, k):
    if type(k) in SYMTYPES or engine().symkeys:
        if isinstance(o, dict) and _is_plain_dict(o):
            ok, q = dict_find(o, k)
            if ok:
                return dict.__getitem__(o, q)
            if isinstance(o, collections.defaultdict) and o.default_factory:
                v = o.default_factory()
                sx_setitem(o, k, v)
                return v
            raise KeyError(k)
    return o[k]


# keys keep their exact type (type(x) is SymBytes tests everywhere), so give the base classes
# a cheap identity hash while symkeys is on
def _install_hash():
    def mk(orig):
        def __hash__(self):
            e = engine()
            if e is not None and e.memo.get('hash-by-id'):
                return id(self) >> 4
            return orig(self)
        return __hash__
    for c in (SymBytes, SymStr, SymInt):
        c.__hash__ = mk(c.__hash__)


_install_hash()


def _store_key(o, k, v):
    e = engine()
    e.symkeys = True
    e.memo['hash-by-id'] = True
    e.keep.append(k)
    type(o).__setitem__(o, k, v)


def sx_setitem(o, k, v):
    e = engine()
    if type(k) in SYMTYPES or e.symkeys:
        if isinstance(o, dict) and type(o).__setitem__ in (dict.__setitem__, collections.OrderedDict.__setitem__):
            ok, q = dict_find(o, k)
            if ok:
                type(o).__setitem__(o, q, v)
            elif type(k) in (SymBytes, SymStr, SymInt):
                _store_key(o, k, v)
            else:
                type(o).__setitem__(o, k, v)
            return
    o[k] = v


def sx_delitem(o, k):
    if type(k) in SYMTYPES or engine().symkeys:
        if isinstance(o, dict) and type(o).__delitem__ in (dict.__delitem__, collections.OrderedDict.__delitem__):
            ok, q = dict_find(o, k)
            if not ok:
                raise KeyError(k)
            type(o).__delitem__(o, q)
            return
    del o[k]


def sx_in(x, c):
    t = type(c)
    tx = type(x)
    if t in (SymBytes, SymStr):
        if not isinstance(x, c.conc) and not (t is SymBytes and is_intlike(x)):
            raise TypeError("'in <string>' requires string as left operand")
        return c.find(x) >= 0
    if tx in SYMTYPES or engine().symkeys:
        if isinstance(c, dict) and type(c).__contains__ in (dict.__contains__, ):
            return dict_find(c, x)[0]
        if t in (set, frozenset):
            if tx not in SYMTYPES:
                return x in c
            return _in_list(x, sorted(c, key=repr))
        if t in (list, tuple):
            return _in_list(x, c)
        if t is str and tx is SymStr:
            return _sub_in(x, c)
        if t is bytes and tx in (SymBytes, SymInt):
            if tx is SymInt:
                return mk_bool(set_cond(x.t, set(c)))
            return _sub_in(x, c)
        if isinstance(c, (type({}.keys()),)) and tx in SYMTYPES:
            return _in_list(x, list(c))
    return x in c


def _sub_in(x, c):
    xs = x.flat()
    r = False
    for i in range(len(c) - len(xs) + 1):
        r = V.s_or(r, x == c[i:i + len(xs)])
    return r


def _in_list(x, c):
    r = False
    for y in c:
        if y is x:
            return True
        q = (y == x)
        if q is NotImplemented or q is False:
            continue
        if q is True:
            return True
        r = V.s_or(r, q) if type(q) in (SymBool, bool) else V.s_or(r, bool(q))
    return r


def sx_notin(x, c):
    return V.s_not(sx_in(x, c))


def sx_mod(a, b):
    if isinstance(a, str) and (type(a) is SymStr or has_sym(b)):
        if type(a) is str:
            parts = re.split(r'(%[sdrx%])', a)
            if len([p for p in parts if p.startswith('%')]) == a.count('%'):
                args = list(b) if isinstance(b, tuple) else [b]
                out = []
                for p in parts:
                    if p == '%%':
                        out.append('%')
                    elif p in ('%s', '%d'):
                        out.append(m_str(args.pop(0)))
                    elif p == '%r':
                        out.append(m_repr(args.pop(0)))
                    elif p == '%x':
                        out.append(m_format(args.pop(0), 'x'))
                    else:
                        out.append(p)
                return V.seq_join('', out)
        return opaque_str('%')
    return a % b


def m_dict_method(name):
    def f(d, *a, **kw):
        if name == 'get':
            ok, q = dict_find(d, a[0])
            return dict.__getitem__(d, q) if ok else (a[1] if len(a) > 1 else None)
        if name == 'setdefault':
            ok, q = dict_find(d, a[0])
            if ok:
                return dict.__getitem__(d, q)
            v = a[1] if len(a) > 1 else None
            sx_setitem(d, a[0], v)
            return v
        if name == 'pop':
            ok, q = dict_find(d, a[0])
            if ok:
                v = dict.__getitem__(d, q)
                type(d).__delitem__(d, q)
                return v
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        if name == '__getitem__':
            return sx_getitem(d, a[0])
        if name == '__setitem__':
            return sx_setitem(d, a[0], a[1])
        if name == '__contains__':
            return dict_find(d, a[0])[0]
        if name == 'update':
            src = a[0] if a else {}
            it = src.items() if hasattr(src, 'keys') else src
            for k, v in it:
                sx_setitem(d, k, v)
            for k, v in kw.items():
                d[k] = v
            return None
        raise KeyError(name)
    return f


DICT_METHODS = {n: m_dict_method(n) for n in ('get', 'setdefault', 'pop', '__getitem__', '__setitem__',
                                              '__contains__', 'update')}


# ---------------------------------------------------------------- enum
def m_enum_call(cls, v):
    for mem in cls.__members__.values():
        r = (mem.value == v)
        if r is True or (r is not False and bool(r)):
            return mem
    if issubclass(cls, enum.Flag):
        return cls(int(v))
    # CPython consults _missing_ before failing
    res = cls._missing_(v)
    if isinstance(res, cls):
        return res
    raise ValueError('value is not a valid %s' % cls.__qualname__)


# ---------------------------------------------------------------- dispatcher
def m_print(*a, **kw):
    return None


def m_math(name):
    def f(x):
        if type(x) is SymFrac:
            return getattr(x, name)()
        if type(x) in (SymInt, SymBool):
            return x
        import math
        return getattr(math, name)(x)
    return f


import math                                                  # noqa: E402

MODELS = {
    len: m_len, type: m_type, bool: m_bool, str: m_str, repr: m_repr, int: m_int, hash: m_hash, hex: m_hex,
    range: m_range, min: _minmax('min', min), max: _minmax('max', max), chr: m_chr, ord: m_ord,
    getattr: m_getattr, hasattr: m_hasattr, round: m_round, bytes: V.m_bytes, bytearray: m_bytearray,
    format: m_format, print: m_print, math.ceil: m_math('ceil'), math.floor: m_math('floor'),
    math.trunc: m_math('trunc'), struct.pack: struct_pack, struct.unpack: struct_unpack,
}
ALWAYS = {}                                # models used for concrete arguments too
ALWAYS.update(HASHES)
for _k in ('match', 'fullmatch', 'search'):
    _r, _f = _m_re(_k)
    MODELS[_r] = _f

# models that must also see objects *containing* symbolic state (user classes)
DEEP = {str: m_str, repr: m_repr, hash: m_hash, len: m_len, format: m_format, int: m_int}

SAFE = {isinstance, issubclass, sum, sorted, any, all, next, iter, setattr, callable, id, divmod, pow, abs,
        list, tuple, dict, collections.OrderedDict, enumerate, zip, map, filter, reversed, delattr, vars,
        collections.deque, property, staticmethod, classmethod, functools.partial, object, slice, dir,
        frozenset, set, collections.defaultdict, functools.reduce}
SAFE_SELF = (list, collections.deque, types.GeneratorType, BaseException, set)

STUBS = {}                                 # harness-installed replacements: real function -> stub


def sx_call(f, *args, **kw):
    ft = type(f)
    if ft is types.FunctionType or ft is types.MethodType:
        if STUBS:
            try:
                s = STUBS.get(f)
            except TypeError:
                s = None
            if s is not None:
                return s(*args, **kw)
        if ft is types.FunctionType and f in MODELS:
            return MODELS[f](*args, **kw)
        return f(*args, **kw)
    try:
        hash(f)
        hashable = True
    except TypeError:
        hashable = False
    if hashable:
        if f in STUBS:
            return STUBS[f](*args, **kw)
        if f in ALWAYS:
            return ALWAYS[f](*args, **kw)
        if f in DEEP:
            return DEEP[f](*args, **kw)
    if ft is types.BuiltinFunctionType or ft is MethodWrapperType:
        slf = getattr(f, '__self__', None)
        if isinstance(slf, dict) and engine().symkeys and f.__name__ in DICT_METHODS and _is_plain_dict(slf):
            return DICT_METHODS[f.__name__](slf, *args, **kw)
        if f.__name__ == 'join' and len(args) == 1 and type(slf) in (str, bytes) and type(args[0]) not in (list, tuple):
            args = (list(args[0]),)                # an iterator may yield symbolic parts
    elif isinstance(f, type):
        pass
    elif ft in (MethodDescriptorType, WrapperDescriptorType, ClassMethodDescriptorType):
        slf = None
    else:
        return f(*args, **kw)          # python-level callable object / partial
    sym = False
    for a in args:
        if type(a) in SYMTYPES or type(a) in (list, tuple, dict) and has_sym(a):
            sym = True
            break
    if not sym and kw:
        sym = any(has_sym(a) for a in kw.values())
    if not sym:
        return f(*args, **kw)
    return _sym_call(f, ft, args, kw)


def stands_for(x):
    """a plain value of the type the symbolic one stands for"""
    t = type(x)
    return (0 if t is SymInt else False if t is SymBool else '' if t is SymStr else b'' if t is SymBytes else
            0.5 if t is SymFrac else x)


def _sym_call(f, ft, args, kw):
    if f in MODELS:
        return MODELS[f](*args, **kw)
    if f in SAFE:
        return f(*args, **kw)
    if isinstance(f, type):
        if issubclass(f, BaseException):
            return f(*args, **kw)
        if isinstance(f, enum.EnumMeta):
            if len(args) == 1 and not kw and type(args[0]) in SYMTYPES:
                return m_enum_call(f, args[0])
            return f(*(pin_value(a, 'enum call') for a in args), **kw)
        init, new = f.__init__, f.__new__
        if type(init) is types.FunctionType or type(new) is types.FunctionType \
                or type(f.__call__) is types.FunctionType or f.__flags__ & (1 << 9):   # heap type
            return f(*args, **kw)
    elif ft is BuiltinFunctionType or ft is MethodWrapperType:
        slf = getattr(f, '__self__', None)
        name = f.__name__
        if slf is int and name == 'from_bytes':
            return V.int_from_bytes(*args, **kw)
        if slf is bytes and name == 'fromhex':
            return m_fromhex(*args)
        if slf is dict and name == 'fromkeys':
            d = {}
            for k in args[0]:
                sx_setitem(d, k, args[1] if len(args) > 1 else None)
            return d
        if isinstance(slf, dict) and name in DICT_METHODS and _is_plain_dict(slf):
            return DICT_METHODS[name](slf, *args, **kw)
        if isinstance(slf, struct.Struct):
            if name == 'pack':
                return struct_pack(slf.format, *args)
            if name == 'unpack':
                return struct_unpack(slf.format, *args)
        if isinstance(slf, re.Pattern) and name in ('match', 'fullmatch', 'search'):
            return regex(name, slf, args[0])
        if type(slf) is str:
            if name == 'format':
                return m_strformat(slf, *args, **kw)
            if name in SymStr.__dict__ or name in V.SymSeq.__dict__:
                return getattr(SymStr([ord(c) for c in slf]), name)(*args, **kw)
        if type(slf) is bytes and (name in SymBytes.__dict__ or name in V.SymSeq.__dict__):
            return getattr(SymBytes(list(slf)), name)(*args, **kw)
        if isinstance(slf, SAFE_SELF) and not (isinstance(slf, set)):
            return f(*args, **kw)
        if isinstance(slf, dict):
            return f(*args, **kw)
        if isinstance(slf, type) and issubclass(slf, BaseException) or isinstance(slf, type(super)):
            return f(*args, **kw)
        if name in ('__init__', '__new__', '__setattr__', '__init_subclass__'):
            return f(*args, **kw)
    else:                                           # unbound descriptor: f(self, ...)
        if args and type(args[0]) in SYMTYPES:
            if not isinstance(stands_for(args[0]), f.__objclass__):
                raise TypeError("descriptor '%s' requires a '%s' object" % (f.__name__, f.__objclass__.__name__))
            conv = {'__int__': m_int, '__index__': m_int, '__str__': m_str, '__repr__': m_repr, '__len__': m_len,
                    '__bool__': m_bool, '__trunc__': m_int}.get(f.__name__)
            if conv is not None and len(args) == 1:
                return conv(args[0])
            return getattr(args[0], f.__name__)(*args[1:], **kw)
        name = getattr(f, '__name__', '')
        if name in ('__init__', '__new__', '__setattr__'):
            return f(*args, **kw)
        if args and isinstance(args[0], dict) and name in DICT_METHODS:
            return DICT_METHODS[name](*args, **kw)
        if args and isinstance(args[0], (list, collections.deque)):
            return f(*args, **kw)
    why = 'call to %s' % getattr(f, '__qualname__', f)
    return f(*(pin_value(a, why) for a in args), **{k: pin_value(v, why) for k, v in kw.items()})


def sx_reraise():
    import sys
    e = sys.exc_info()[1]
    if isinstance(e, Control):
        raise e


def sx_enter(name):
    e = engine()
    if e is not None:
        e.functions.add(name)


def install():
    builtins.__dict__.update({
        '__sx_call__': sx_call, '__sx_fstr__': sx_fstr, '__sx_in__': sx_in, '__sx_notin__': sx_notin,
        '__sx_getitem__': sx_getitem, '__sx_setitem__': sx_setitem, '__sx_delitem__': sx_delitem,
        '__sx_mod__': sx_mod, '__sx_reraise__': sx_reraise, '__sx_enter__': sx_enter,
    })
