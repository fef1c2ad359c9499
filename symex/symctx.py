"""Symbolic context: inputs are solver variables, checks are solver queries."""
import z3

from . import values as V
from .core import engine, PathInfeasible, PathAbort
from .values import (SymInt, SymBool, SymBytes, SymStr, Blob, mk_int, mk_bool, mk_bytes, mk_str, zint, zbool,
                     is_intlike, I)


class SymCtx:
    symbolic = True

    def __init__(self):
        self.inputs = []            # (name, kind, payload)
        self.violations = []
        self.inconclusive = []
        self.covered = set()
        self.observed = []
        self.checks = 0
        self.notes = {}

    def _name(self, name):
        n, k = name, 1
        while any(n == i[0] for i in self.inputs):
            k += 1
            n = '%s#%d' % (name, k)
        return n

    # ---------------------------------------------------------------- inputs
    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        v = z3.Int(name)
        if lo is not None and lo == hi:
            self.inputs.append((name, 'int', I(lo)))
            return lo
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        if cs:
            engine().add(z3.And(cs))
        self.inputs.append((name, 'int', v))
        return SymInt(v)

    def bool(self, name):
        name = self._name(name)
        v = z3.Bool(name)
        self.inputs.append((name, 'bool', v))
        return SymBool(v)

    def flag(self, name):
        """a boolean decided by forking now (concrete on each path)"""
        return bool(self.bool(name))

    def bytes(self, name, n):
        name = self._name(name)
        vs = [z3.Int('%s[%d]' % (name, i)) for i in range(n)]
        if vs:
            engine().add(z3.And([z3.And(v >= 0, v <= 255) for v in vs]))
        self.inputs.append((name, 'bytes', vs))
        return mk_bytes(vs)

    def str(self, name, n, lo=0, hi=0x10FFFF, alphabet=None):
        name = self._name(name)
        vs = [z3.Int('%s[%d]' % (name, i)) for i in range(n)]
        for v in vs:
            if alphabet is not None:
                engine().add(V.set_cond(v, set(map(ord, alphabet))))
            else:
                engine().add(z3.And(v >= lo, v <= hi, z3.Or(v < 0xD800, v > 0xDFFF)))
        self.inputs.append((name, 'str', vs))
        return mk_str(vs)

    def blob(self, name, lo, hi, kind='bytes'):
        """opaque sequence: symbolic length in lo..hi, arbitrary content"""
        name = self._name(name)
        ln = z3.Int(name + '.len')
        engine().add(z3.And(ln >= lo, ln <= hi))
        b = Blob(name, ln, kind)
        self.inputs.append((name, 'blob:' + kind, b))
        return SymBytes([b]) if kind == 'bytes' else SymStr([b])

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        name = self._name(name)
        v = z3.Int(name)
        engine().add(z3.And(v >= 0, v < len(options)))
        self.inputs.append((name, 'int', v))
        return options[engine().concretize(v, 'choice')]

    # ---------------------------------------------------------------- logic (non-forking)
    def eq(self, a, b):
        """deep equality as one formula; types must agree (bool vs int is a difference)"""
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        if a is None or b is None:
            return a is b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = self.And(r, self.eq(x, y))
            return r
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            r = True
            for k in a:
                if k not in b:
                    return False
                r = self.And(r, self.eq(a[k], b[k]))
            return r
        q = (a == b)
        return False if q is NotImplemented else q

    def And(self, *xs):
        xs = [x for x in xs if x is not True]
        if any(x is False for x in xs):
            return False
        return mk_bool(z3.And([zbool(x) for x in xs])) if xs else True

    def Or(self, *xs):
        if any(x is True for x in xs):
            return True
        xs = [x for x in xs if x is not False]
        return mk_bool(z3.Or([zbool(x) for x in xs])) if xs else False

    def Not(self, x):
        return V.s_not(x)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def ite(self, c, a, b):
        if type(c) is not SymBool:
            return a if c else b
        return mk_int(z3.If(c.t, zint(a), zint(b)))

    def len(self, x):
        return x.sx_len() if type(x) in (SymBytes, SymStr) else len(x)

    def valid(self, cond):
        """is cond true on every input of this path? (used by harnesses to split cheaply)"""
        return engine().valid(zbool(cond)) is True

    # ---------------------------------------------------------------- obligations
    def assume(self, cond):
        if cond is True:
            return
        engine().assume(zbool(cond))

    def check(self, cond, msg):
        e = engine()
        if e.aborted is not None:
            raise e.aborted
        self.checks += 1
        if cond is True:
            # the path itself must be feasible for the claim to mean anything; nothing to solve
            return
        t = zbool(cond)
        r = e.valid(t)
        if r is True:
            return
        if r is None:
            self.inconclusive.append(msg)
            return
        self.violations.append((msg, self.extract(e.cex)))
        try:
            e.assume(t)
        except PathInfeasible:
            e.aborted = PathAbort()
            raise e.aborted

    def fail(self, msg):
        self.check(False, msg)

    def cover(self, label):
        self.covered.add(label)

    def observe(self, label, value):
        """recorded, and compared with the value seen when the path is replayed concretely"""
        self.observed.append((label, value))

    # ---------------------------------------------------------------- models
    def extract(self, model):
        def ev(t):
            if type(t) is int:
                return t
            return model.eval(t, model_completion=True).as_long()

        def blobval(b):
            if b.parts is None:
                n = ev(b.lenterm())
                return ['fill', n]
            return ['parts', [ev(x) if type(x) is not Blob else blobval(x) for x in b.parts]]
        out = {}
        for name, kind, v in self.inputs:
            if kind == 'int':
                out[name] = ['int', str(ev(v))]
            elif kind == 'bool':
                out[name] = ['bool', z3.is_true(model.eval(v, model_completion=True))]
            elif kind in ('bytes', 'str'):
                out[name] = [kind, [ev(x) for x in v]]
            else:
                out[name] = [kind, blobval(v)]
        return out

    def concrete(self, model, v):
        """value of an observation under a model (None = not comparable)"""
        def ev(t):
            return t if type(t) is int else model.eval(t, model_completion=True).as_long()
        t = type(v)
        if t is SymInt:
            return ev(v.t)
        if t is SymBool:
            return z3.is_true(model.eval(v.t, model_completion=True))
        if t in (SymBytes, SymStr):
            if any(type(x) is Blob for x in v.norm()):
                return ['~']
            xs = [ev(x) for x in v.items]
            return bytes(xs).hex() if t is SymBytes else ''.join(map(chr, xs))
        if isinstance(v, (list, tuple)):
            return [self.concrete(model, x) for x in v]
        if isinstance(v, dict):
            return [[self.concrete(model, k), self.concrete(model, x)] for k, x in v.items()]
        if isinstance(v, bytes):
            return v.hex()
        if isinstance(v, bool) or v is None:
            return v
        if isinstance(v, int):
            return int(v)
        if isinstance(v, str):
            return str(v)
        return ['~']
