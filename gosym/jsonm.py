"""encoding/json over trees: text that contains symbolic integers stays a tree."""
import base64
import json

import z3

from symex import core
from symex.values import SymBytes, Blob, mk_int, mk_bool, zint, zbool
from . import rt
from .rt import Enc, Iface, GoMap, Ptr, Slice, OSlice, PyObj, Unsupported, truth, b2s, s2b, BOUNDS, concr
from .lib import INTR, MODULE, err, lst, bi, setb

IC = MODULE + '/common/intconv.'


class Bad(Exception):
    pass


class Num(str):
    """a number as it is written"""


def parse(b):
    try:
        return json.loads(b.decode('utf-8', 'replace'), object_pairs_hook=lambda ps: dict((k.encode(), v) for k, v in ps),
                          parse_int=Num, parse_float=Num, parse_constant=lambda c: bad())
    except ValueError:
        raise Bad


def bad():
    raise ValueError


def fix(t):
    """strings of a parsed text as bytes"""
    if isinstance(t, Num) or t is None or type(t) is bool:
        return t
    if type(t) is str:
        return t.encode('utf-8', 'surrogatepass')
    if type(t) is list:
        return [fix(x) for x in t]
    return {k: fix(v) for k, v in t.items()}


def concrete(t):
    if type(t) is dict:
        return all(concrete(x) for x in t.values())
    if type(t) is list:
        return all(concrete(x) for x in t)
    return not isinstance(t, (SymBytes, core_values()))


def core_values():
    from symex.values import SymInt, SymBool
    return (SymInt, SymBool)


def text(t):
    if t is None:
        return 'null'
    if t is True or t is False:
        return 'true' if t else 'false'
    if isinstance(t, Num):
        return str(t)
    if type(t) is bytes:
        s = json.dumps(t.decode('utf-8', 'replace'), ensure_ascii=False)
        for c in '<>&\u2028\u2029':
            s = s.replace(c, '\\u%04x' % ord(c))
        return s
    if type(t) is list:
        return '[' + ','.join(text(x) for x in t) + ']'
    return '{' + ','.join(text(k) + ':' + text(v) for k, v in t.items()) + '}'


def out(t):
    """the bytes of a tree"""
    if concrete(t):
        return s2b(text(t).encode())
    e = core.engine()
    ln = z3.Int(e.fresh_name('jlen'))
    e.add(ln >= 1)
    BOUNDS[ln.decl().name()] = (1, 1 << 31)
    return Enc(('json', t), SymBytes([Blob(e.fresh_name('json'), ln, 'bytes')]))


def tree(b):
    if isinstance(b, Enc):
        if type(b.tree) is tuple and b.tree[0] == 'json':
            return b.tree[1]
        raise Unsupported('JSON of an encoding')
    s = b2s(b)
    if type(s) is not bytes:
        raise Unsupported('JSON of symbolic bytes')
    return fix(parse(s))


def tags(w, t):
    """fields of a struct: (index path, name, type, omitempty)"""
    r = []
    for i, f in enumerate(w.under(t)['fields']):
        tag = f[3]
        name, opts = None, ()
        k = tag.find('json:"')
        if k >= 0:
            v = tag[k + 6:].split('"', 1)[0]
            if v == '-':
                continue
            name, *opts = v.split(',')
        if f[2] and not name:
            ft = f[1]
            if w.kind(ft) == 'struct':
                r += [((i,) + p, n, t2, o) for p, n, t2, o in tags(w, ft)]
                continue
            if w.kind(ft) == 'ptr':
                raise Unsupported('JSON of an embedded pointer')
        if not f[0][:1].isupper():
            continue
        r.append(((i,), name or f[0], f[1], 'omitempty' in opts))
    return r


def install(w):
    def empty(k, v):
        if k in ('ptr', 'iface'):
            return v is None
        if k in ('map', 'slice'):
            return v is None or (len(v.d) if isinstance(v, GoMap) else rt.slen(v)) == 0
        if k == 'str':
            return truth(v == b'')
        if k == 'bool':
            return not truth(v)
        if k in rt.RANGE:
            return truth(v == 0)
        return False

    def enc(x):
        """tree of an interface value"""
        if x is None:
            return None
        t, v = x.t, x.v
        if t == 'py':
            raise Unsupported('JSON of a modelled object')
        k = w.kind(t)
        if k in ('ptr', 'map') and v is None:
            return None
        if w.tname(t) == 'encoding/json.RawMessage':
            return None if v is None else tree(v)
        if w.has_method(t, 'MarshalJSON'):
            b, e = w.invoke(x, 'MarshalJSON', '')
            if e is not None:
                raise Bad
            return tree(b)
        if w.has_method(t, 'MarshalText'):
            b, e = w.invoke(x, 'MarshalText', '')
            if e is not None:
                raise Bad
            return b2s(b)
        if k == 'ptr':
            et = w.under(t)['elem']
            y = v.c[v.i]
            return enc(y if w.kind(et) == 'iface' else Iface(et, y))
        if k in rt.RANGE:
            return Num(concr(v))
        if k == 'bool':
            return truth(v)
        if k == 'str':
            return v
        if k == 'slice':
            if v is None:
                return None
            et = w.under(t)['elem']
            if w.kind(et) == 'uint8':
                return base64.b64encode(bytes(b2s(v)))
            return [enc(y if w.kind(et) == 'iface' else Iface(et, y)) for y in rt.elems(v)]
        if k == 'map':
            et = w.under(t)['elem']
            d = {}
            for key, y in v.d.values():
                if type(key) is not bytes:
                    raise Unsupported('JSON of a map whose keys are not plain strings')
                d[key] = enc(y if w.kind(et) == 'iface' else Iface(et, y))
            return dict(sorted(d.items()))
        if k == 'struct':
            d = {}
            for path, n, ft, omit in tags(w, t):
                y = v
                for i in path:
                    y = y[i]
                if omit and empty(w.kind(ft), y):
                    continue
                d[n.encode()] = enc(y if w.kind(ft) == 'iface' else Iface(ft, y))
            return d
        raise Unsupported('JSON of ' + w.tname(t))

    def anyv(t):
        """interface value of a tree"""
        if t is None:
            return None
        if isinstance(t, Num):
            return Iface(w.c('basic', name='float64')['id'], float(t))
        if type(t) is bool:
            return Iface(w.c('basic', name='bool')['id'], t)
        if type(t) is dict:
            m = GoMap()
            for k, v in t.items():
                m.set(k, anyv(v))
            return Iface(w.c('mapany')['id'], m)
        if type(t) is list:
            ls = [anyv(x) for x in t]
            return Iface(w.c('mapany')['slice'], Slice(ls, 0, len(ls), len(ls)))
        return Iface(w.c('basic', name='string')['id'], t)

    def dec(x, t, strict):
        """into the pointer x (an interface value)"""
        et = w.under(x.t)['elem']
        p = x.v
        k = w.kind(et)
        if w.tname(et) == 'encoding/json.RawMessage':
            rt.store(p, s2b(text(t).encode()) if concrete(t) else out(t))
            return
        if k == 'ptr':
            if t is None:
                rt.store(p, None)
                return
            n = rt.load(p)
            if n is None:
                n = Ptr([w.zerof(w.under(et)['elem'])()], 0)
            dec(Iface(et, n), t, strict)
            rt.store(p, n)
            return
        if w.has_method(x.t, 'UnmarshalJSON'):
            e = w.invoke(x, 'UnmarshalJSON', '', out(t))
            if e is not None:
                raise Bad
            return
        if w.has_method(x.t, 'UnmarshalText') and not isinstance(t, (dict, list, Num, bool, type(None))):
            e = w.invoke(x, 'UnmarshalText', '', s2b(t))
            if e is not None:
                raise Bad
            return
        if k == 'iface':
            if w.under(et)['methods']:
                if t is None:
                    rt.store(p, None)
                    return
                raise Bad
            rt.store(p, anyv(t))
            return
        if t is None:
            if k in ('map', 'slice'):
                rt.store(p, None)
            return
        if k == 'str':
            if isinstance(t, (dict, list, Num, bool)):
                raise Bad
            rt.store(p, t)
            return
        if k == 'bool':
            if type(t) is not bool:
                raise Bad
            rt.store(p, t)
            return
        if k in rt.RANGE:
            if not isinstance(t, Num):
                raise Bad
            try:
                v = int(t)
            except ValueError:
                raise Bad
            lo, hi = rt.RANGE[k]
            if not lo <= v <= hi:
                raise Bad
            rt.store(p, v)
            return
        if k == 'map':
            if type(t) is not dict:
                raise Bad
            ut = w.under(et)
            m = rt.load(p)
            if m is None:
                m = GoMap()
            for key, v in t.items():
                n = Ptr([w.zerof(ut['elem'])()], 0)
                dec(Iface(w.ptrto(ut['elem']), n), v, strict)
                m.set(key, n.c[0])
            rt.store(p, m)
            return
        if k == 'slice':
            ut = w.under(et)
            if w.kind(ut['elem']) == 'uint8':
                if type(t) is not bytes:
                    raise Bad
                try:
                    rt.store(p, s2b(base64.b64decode(t, validate=True)))
                except ValueError:
                    raise Bad
                return
            if type(t) is not list:
                raise Bad
            o = []
            for y in t:
                n = Ptr([w.zerof(ut['elem'])()], 0)
                dec(Iface(w.ptrto(ut['elem']), n), y, strict)
                o.append(n.c[0])
            rt.store(p, Slice(o, 0, len(o), len(o)))
            return
        if k == 'struct':
            if type(t) is not dict:
                raise Bad
            fs = tags(w, et)
            failed = False
            for key, v in t.items():
                hit = [f for f in fs if f[1].encode() == key] or [f for f in fs if f[1].lower().encode() == key.lower()]
                if not hit:
                    if strict:
                        failed = True
                    continue
                path, n, ft, _ = hit[0]
                c = p.c[p.i]
                for i in path[:-1]:
                    c = c[i]
                dec(Iface(w.ptrto(ft), Ptr(c, path[-1])), v, strict)
            if failed:
                raise Bad
            return
        raise Unsupported('JSON into ' + w.tname(et))

    def marshal(x):
        try:
            return (out(enc(x)), None)
        except Bad:
            return (None, err('json: marshal'))

    def unmarshal(b, x, strict=False):
        try:
            if x is None or w.kind(x.t) != 'ptr' or x.v is None:
                raise Bad
            dec(x, tree(b), strict)
        except Bad:
            return err('json: unmarshal')
        return None

    class Dec(PyObj):
        def __init__(self, r):
            self.r = r
            self.strict = False

    def decode(d, x):
        r = d.r
        if r is None or w.tname(r.t) != '*bytes.Buffer':
            raise Unsupported('JSON of a stream')
        st = r.v.c[r.v.i]
        b = st[0]
        if b is None or d.strict is None:
            return w.eof()
        s, d.strict = d.strict, None
        if not isinstance(b, Enc):
            x0 = bytes(b2s(b))[concr(st[1]):]
            try:
                y, n = json.JSONDecoder().raw_decode(x0.decode('utf-8', 'replace').lstrip())
                x0 = x0.lstrip()[:len(x0.decode('utf-8', 'replace').lstrip()[:n].encode())]
            except ValueError:
                return w.eof() if not x0.strip() else err('json: decode')
            b = s2b(x0)
        return unmarshal(b, x, s)

    def strict(d):
        d.strict = True

    J = 'encoding/json.'
    INTR[J + 'Marshal'] = marshal
    INTR[J + 'Unmarshal'] = lambda b, x: unmarshal(b, x)
    INTR[J + 'NewDecoder'] = Dec
    INTR['(*encoding/json.Decoder).Decode'] = decode
    INTR['(*encoding/json.Decoder).DisallowUnknownFields'] = strict
    INTR[J + 'Valid'] = lambda b: valid(b)

    def valid(b):
        try:
            tree(b)
            return True
        except Bad:
            return False
    INTR['init:encoding/json'] = lambda w: None

    def compact(dst, src):
        st = dst.c[dst.i]
        if st[0] is not None:
            raise Unsupported('json.Compact into a buffer that is not empty')
        try:
            st[0] = src if isinstance(src, Enc) else s2b(text(tree(src)).encode())
        except Bad:
            return err('json: compact')
        return None
    INTR[J + 'Compact'] = compact

    if not w.state0.get('real_intconv'):
        def fmt(x):
            v = bi(x)
            if type(v) is int:
                return ('-' if v < 0 else '').encode() + b'0x%x' % abs(v)
            e = core.engine()
            ln = z3.Int(e.fresh_name('hlen'))
            e.add(z3.And(ln >= 3, ln <= 140))
            BOUNDS[ln.decl().name()] = (3, 140)
            return SymBytes([Blob(e.fresh_name('hex'), ln, 'str', ('hextext', v.t))])

        def pars(i, s):
            if type(s) is not bytes:
                items = s.norm()
                if len(items) == 1 and type(items[0]) is Blob and items[0].info and items[0].info[0] == 'hextext':
                    setb(i, mk_int(items[0].info[1]))
                    return None
            return w.real(IC + 'ParseBigInt')(i, s)
        INTR[IC + 'FormatBigInt'] = fmt
        INTR[IC + 'ParseBigInt'] = pars

        def fmt64(real):
            def f(v):
                return fmt(Ptr([[v]], 0)) if type(v) is not int else w.real(IC + real)(v)
            return f

        def pars64(real, signed):
            def f(s, bits):
                if type(s) is not bytes:
                    items = s.norm()
                    if len(items) == 1 and type(items[0]) is Blob and items[0].info and items[0].info[0] == 'hextext':
                        v = mk_int(items[0].info[1])
                        n = concr(bits)
                        lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if signed else (0, (1 << n) - 1)
                        if truth(mk_bool(z3.And(v.t >= lo, v.t <= hi))):
                            return (v, None)
                        return (0, err('out of range'))
                return w.real(IC + real)(s, bits)
            return f
        INTR[IC + 'FormatInt'] = fmt64('FormatInt')
        INTR[IC + 'FormatUint'] = fmt64('FormatUint')
        INTR[IC + 'ParseInt'] = pars64('ParseInt', True)
        INTR[IC + 'ParseUint'] = pars64('ParseUint', False)
