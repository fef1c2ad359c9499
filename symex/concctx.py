"""Concrete context: replays a harness on given inputs against the unmodified code."""
import hashlib


class AssumptionFailed(BaseException):
    pass


class ConcCtx:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.used = []
        self.failures = []
        self.covered = set()
        self.observed = []

    def _name(self, name):
        n, k = name, 1
        while n in self.used:
            k += 1
            n = '%s#%d' % (name, k)
        self.used.append(n)
        return n

    def _get(self, name, default):
        name = self._name(name)
        if name in self.inputs:
            return name, self.inputs[name][1]
        return name, default

    def int(self, name, lo=None, hi=None):
        d = lo if lo is not None else (hi if hi is not None else 0)
        return int(self._get(name, d)[1])

    def bool(self, name):
        return bool(self._get(name, False)[1])

    flag = bool

    def bytes(self, name, n):
        return bytes(self._get(name, [0] * n)[1])

    def str(self, name, n, lo=0, hi=0x10FFFF, alphabet=None):
        d = ord(alphabet[0]) if alphabet else max(lo, 48)
        return ''.join(map(chr, self._get(name, [d] * n)[1]))

    def blob(self, name, lo, hi, kind='bytes'):
        name, v = self._get(name, ['fill', lo])
        seed = hashlib.sha256(name.encode()).digest()

        def build(v, off):
            if isinstance(v, int):
                return [v]
            if v[0] == 'fill':
                if kind == 'bytes':
                    return [seed[(off + i) % 32] for i in range(v[1])]
                return [0x61 + seed[(off + i) % 32] % 26 for i in range(v[1])]
            out = []
            for p in v[1]:
                out.extend(build(p, off + len(out)))
            return out
        items = build(v, 0)
        return bytes(items) if kind == 'bytes' else ''.join(map(chr, items))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name, 0)[1])]

    def eq(self, a, b):
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        if a is None or b is None:
            return a is b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return len(a) == len(b) and all(k in b and self.eq(a[k], b[k]) for k in a)
        return a == b

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def len(self, x):
        return len(x)

    def valid(self, cond):
        return bool(cond)

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def check(self, cond, msg):
        if not cond:
            self.failures.append(msg)

    def fail(self, msg):
        self.failures.append(msg)

    def cover(self, label):
        self.covered.add(label)

    def observe(self, label, value):
        self.observed.append((label, value))

    @staticmethod
    def plain(v):
        if isinstance(v, (list, tuple)):
            return [ConcCtx.plain(x) for x in v]
        if isinstance(v, dict):
            return [[ConcCtx.plain(k), ConcCtx.plain(x)] for k, x in v.items()]
        if isinstance(v, (bytes, bytearray)):
            return bytes(v).hex()
        if isinstance(v, bool) or v is None:
            return v
        if isinstance(v, int):
            return int(v)
        if isinstance(v, str):
            return str(v)
        return ['~']
