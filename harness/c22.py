"""A method sees the call it was called by: sender, amount, transaction, block, owner, address, at any moment."""
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, info, Address, AddressPrefix, enc_int
from iconservice import IconScoreException

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01']}

FIELDS = ['sender', 'value', 'hash', 'index', 'origin', 'tx timestamp', 'nonce', 'height', 'timestamp', 'now', 'owner',
          'address', 'get_owner']
WIDE = 1 << 256


class Request:
    """one request with everything about it symbolic"""

    def __init__(self, ctx, tag, kinds=True):
        n = lambda x: '%s.%s' % (tag, x)
        self.sender = self.addr(ctx, n('sender'), kinds)
        # any of them in single requests; told apart and positive where requests are combined
        self.to = Address(AddressPrefix.CONTRACT, ctx.bytes(n('to'), 20) if kinds else bytes([ord(tag[-1])]) * 20)
        self.value = ctx.int(n('value'), 0 if kinds else 1, WIDE)
        self.hash = ctx.bytes(n('hash'), 32)
        self.index = ctx.int(n('index'), 0, 1 << 31)
        self.origin = self.addr(ctx, n('origin'), kinds)
        self.txts = ctx.int(n('txts'), 0, 1 << 63)
        self.nonce = ctx.int(n('nonce'), 0, WIDE)
        self.height = ctx.int(n('height'), 0, 1 << 63)
        self.ts = ctx.int(n('ts'), 0, 1 << 63)
        self.owner = self.addr(ctx, n('owner'), kinds)
        self.limit = ctx.int(n('limit'), 0, 1 << 63)

    @staticmethod
    def addr(ctx, name, kinds):
        p = ctx.choice(name + '.kind', [AddressPrefix.EOA, AddressPrefix.CONTRACT]) if kinds else AddressPrefix.EOA
        return Address(p, ctx.bytes(name, 20))

    def info(self, ctx):
        return info(ctx, {'schema': 0, 'get': 1}, 0, self.owner,
                    **{'T.hash': self.hash, 'T.index': self.index, 'T.from': self.origin, 'T.timestamp': self.txts,
                       'T.nonce': self.nonce, 'B.height': self.height, 'B.timestamp': self.ts})

    def queue(self, ctx, peer, method='pay', query=False, then=None, none=False):
        raw = lambda a: a.prefix.value.to_bytes(1, 'big') + a.body
        return peer.queue_invoke(sim.package(scores.Scripted), query, None if none else raw(self.sender), raw(self.to),
                                 self.value, self.limit, method, [], self.info(ctx), then=then)

    def expected(self, none=False):
        return [None if none else self.sender, self.value, self.hash, self.index, self.origin, self.txts, self.nonce,
                self.height, self.ts, self.ts, self.owner, self.to, self.owner]


def look(score):
    return [score.msg.sender, score.msg.value, score.tx.hash, score.tx.index, score.tx.origin, score.tx.timestamp,
            score.tx.nonce, score.block.height if score.block.height is not None else score.block_height,
            score.block.timestamp, score.now(), score.owner, score.address, score.get_owner(score.address)]


def same(ctx, a, b):
    if isinstance(b, Address):
        return isinstance(a, Address) and a.prefix is b.prefix and ctx.eq(a.body, b.body)
    return ctx.eq(a, b)


def judge(ctx, seen, want, when):
    for f, a, b in zip(FIELDS, seen, want):
        ctx.check(same(ctx, a, b), '%s is its own %s' % (f, when))


@unit(cases=[dict(query=q) for q in (False, True)], covers=['contract', 'account', 'nobody'],
      bounds='one request or query: every address, 256 bit amounts and nonces, 63 bit heights and times')
def single(ctx, query):
    r = Request(ctx, 'r')
    none = ctx.flag('nobody')
    peer = Peer(ctx)
    seen = []
    scores.CTX[0] = lambda score, _: seen.append(look(score))
    f = r.queue(ctx, peer, 'pay', query, none=none)
    f.escaped = peer.run()
    ctx.check(f.result is not None and f.result[0] == 0 and len(seen) == 1, 'the method runs')
    if seen:
        judge(ctx, seen[0], r.expected(none), 'in one request')
    ctx.cover('nobody' if none else 'contract' if r.sender.prefix == AddressPrefix.CONTRACT else 'account')


ENDS = ['returns', 'reverts', 'fails', 'hostile', 'exit']


class Hostile(Exception):
    def __str__(self):
        raise SystemExit(3)


def end(how):
    from iconservice import revert
    if how == 'reverts':
        revert('x', 1)
    if how == 'fails':
        raise ValueError('y')
    if how == 'hostile':
        raise Hostile()
    if how == 'exit':
        raise SystemExit(1)
    return 1


@unit(cases=[dict(how=h, depth=d) for h in ENDS for d in (1, 2)], thorough_cases=[dict(how=h, depth=4) for h in ENDS],
      covers=['after'],
      bounds='requests nested up to 2 deep (4 in the thorough tier) through one executor, ending in five ways; everything about '
             'each request symbolic, looked at before and after the nested one; a following request')
def nested(ctx, how, depth):
    rs = [Request(ctx, 'r%d' % i, False) for i in range(depth + 2)]
    peer = Peer(ctx)
    level = [0]
    before, after = {}, {}
    limits = {}

    def on_call(p, f, to, value, lim, m, params):
        def then(p2, g):
            p2.reply_call([g.result[0], 0, g.result[2]])
        rs[level[0]].queue(ctx, p, 'pay', False, then)
    peer.on_call = on_call

    def script(score, _):
        i = level[0]
        level[0] += 1
        before[i] = look(score)
        if i < depth:
            limits[i] = True
            try:
                score.call(rs[i + 1].to, 'pay', {})
            except BaseException:
                pass
            after[i] = look(score)
            return i
        return end(how) if i == depth else i
    scores.CTX[0] = script
    f = rs[0].queue(ctx, peer)
    f.escaped = peer.run()
    for i in range(depth + 1):
        ctx.check(i in before, 'every level runs')
        if i in before:
            judge(ctx, before[i], rs[i].expected(), 'when a nested request starts')
    for i in range(depth):
        ctx.check(i in after, 'every level goes on')
        if i in after:
            ctx.cover('after')
            judge(ctx, after[i], rs[i].expected(), 'after a nested request')
    for i, c in enumerate(f.calls):
        ctx.check(ctx.eq(c[2], rs[i].limit), 'a call is given the limit of its own request')
    level[0] = depth + 1
    g = rs[depth + 1].queue(ctx, peer)
    g.escaped = peer.run()
    ctx.check(g.result is not None and g.result[0] == 0 and depth + 1 in before, 'the next request runs')
    if depth + 1 in before:
        judge(ctx, before[depth + 1], rs[depth + 1].expected(), 'in the next request')


@unit(cases=[dict(kind=k) for k in ('icx', 'interface', 'event', 'db')], covers=['own'],
      bounds='objects a contract made in an earlier request and used in a later one')
def kept_objects(ctx, kind):
    """what a contract keeps from an earlier request works for the present one"""
    a, b = Request(ctx, 'a', False), Request(ctx, 'b', False)
    peer = Peer(ctx)
    peer.on_call = lambda *x: [0, 0, None]
    kept = []

    def script(score, _):
        if not kept:
            kept.append(score.icx if kind == 'icx' else scores.Callee(a.to) if kind == 'interface' else score)
            return 1
        if kind == 'icx':
            score.icx.transfer(a.origin, 5)
        elif kind == 'interface':
            kept[0].icx(6).bar()
        elif kind == 'event':
            kept[0].Ev(3, b'k')
        else:
            kept[0].num.set(9)
        return 2
    scores.CTX[0] = script
    f = a.queue(ctx, peer)
    f.escaped = peer.run()
    g = b.queue(ctx, peer)
    g.escaped = peer.run()
    ctx.check(f.result is not None and g.result is not None and peer.errors == [], 'the requests are answered')
    if f.result is None or g.result is None:
        return
    ctx.check(f.calls == [] and f.events == [] and f.sets == [], 'the first one does nothing')
    if kind in ('icx', 'interface'):
        ctx.check(len(g.calls) == 1 and ctx.eq(g.calls[0][2], b.limit), 'the call has the limit of the present request')
    elif g.result[0] == 0:
        ctx.check(len(g.events) + len(g.sets) == 1, 'the effect is one of the present request')
    ctx.cover('own')


class Hooks:
    """objects whose own methods are code of the contract"""

    def __init__(self, hook):
        H = hook

        class HDict(dict):
            def items(self):
                H()
                return dict.items(self)

            def __repr__(self):
                H()
                return 'd'

            def __len__(self):
                H()
                return dict.__len__(self)

        class HList(list):
            def __iter__(self):
                H()
                return list.__iter__(self)

            def __repr__(self):
                H()
                return 'l'

            def __len__(self):
                H()
                return list.__len__(self)

        class HTuple(tuple):
            def __iter__(self):
                H()
                return tuple.__iter__(self)

        class HStr(str):
            def encode(self, *a):
                H()
                return str.encode(self, *a)

            def __str__(self):
                H()
                return 's'

            __repr__ = __format__ = lambda self, *a: self.__str__()

            def __hash__(self):
                H()
                return str.__hash__(self)

        class HBytes(bytes):
            def __repr__(self):
                H()
                return 'b'

            def __len__(self):
                H()
                return bytes.__len__(self)

            def __bytes__(self):
                H()
                return b'no'

        class HInt(int):
            def bit_length(self):
                H()
                return int.bit_length(self)

            def __add__(self, o):
                H()
                return int.__add__(self, o)

            def to_bytes(self, *a, **kw):
                H()
                return int.to_bytes(self, *a, **kw)

            def __repr__(self):
                H()
                return '1'

            __str__ = __repr__

            def __format__(self, *a):
                H()
                return '1'

            def __lt__(self, o):
                H()
                return int.__lt__(self, o)

        class HAddress(Address):
            def to_bytes(self):
                H()
                return Address.to_bytes(self)

            def __str__(self):
                H()
                return 'a'

            __repr__ = __str__

        class HOther:
            def __repr__(self):
                H()
                return 'o'

            def __str__(self):
                H()
                return 'o'

            def __format__(self, *a):
                H()
                return 'o'

        class Meta(type):
            def __repr__(self):
                H()
                return 'm'

        class HMeta(metaclass=Meta):
            pass

        class HClass:
            @property
            def __class__(self):
                H()
                return dict

            def items(self):
                H()
                return [('a', 1)]

        class HErr(Exception):
            def __str__(self):
                H()
                return 'e'

            def __repr__(self):
                H()
                return 'e'

        class HErr2(Exception):
            def __str__(self):
                H()
                raise HErr2()

        class HErr3(Exception):
            def __str__(self):
                return HStr('text')

        class HScore(IconScoreException):
            @property
            def code(self):
                H()
                return HInt(40)

            @property
            def message(self):
                H()
                return HStr('m')

        class HIter(dict):
            def items(self):
                raise HErr()

        class HIter2(dict):
            def items(self):
                raise HErr3()

        def err(c, *a):
            def f():
                raise c(*a)
            return f
        self.make = {
            'dict': lambda: HDict(a=1), 'in dict': lambda: {'a': HDict(b=HList([1]))}, 'list': lambda: HList([1, 2]),
            'tuple': lambda: [HTuple((1, 2))], 'str': lambda: HStr('x'), 'key': lambda: {HStr('k'): 1},
            'bytes': lambda: HBytes(b'xy'), 'int': lambda: HInt(300), 'ints': lambda: [HInt(3), {'a': HInt(-1)}],
            'address': lambda: [HAddress(AddressPrefix.EOA, bytes(20))], 'other': lambda: HOther(), 'others': lambda: [HOther()],
            'meta': lambda: HMeta(), 'type': lambda: [HMeta], 'class': lambda: HClass(), 'badkey': lambda: {HOther(): 1},
            'error': err(HErr), 'error2': err(HErr2), 'error3': err(HErr3), 'score': err(HScore, 'm'),
            'message': err(IconScoreException, HStr('m'), 3), 'message object': err(IconScoreException, HOther(), 3),
            'index': err(IconScoreException, 'm', HInt(3)), 'iter': lambda: HIter(a=1), 'iter2': lambda: HIter2(a=1)}


OBJECTS = list(Hooks(None).make)


@unit(cases=[dict(obj=o, way=w) for o in OBJECTS for w in ('nested', 'readonly')], covers=['ran', 'went on'],
      bounds='every kind of value and exception a method can end with, of types whose operations are code of the contract, '
             'which looks at its call and changes state; in a request nested in another with everything about both symbolic')
def returned(ctx, obj, way):
    """code of a contract that runs when its result is handled runs in its own request, or not at all"""
    a, b = Request(ctx, 'r0', False), Request(ctx, 'r1', False)
    a.limit = ctx.int('limit0', 1000, 1 << 63)
    b.limit = ctx.int('limit1', 1000, 1 << 63)
    ctx.assume(a.limit < b.limit)
    peer = Peer(ctx)
    seen, own, inner = [], [], []

    def on_call(p, f, to, value, lim, m, params):
        def then(p2, g):
            p2.reply_call([g.result[0], 0, g.result[2]])
        inner.append(b.queue(ctx, p, 'view' if way == 'readonly' else 'pay', False, then))
    peer.on_call = on_call

    def script(score, name):
        if score.address == a.to:
            try:
                score.call(b.to, 'pay', {})
            except BaseException as e:
                if type(e).__module__.startswith('symex'):
                    raise
            own.append(look(score))
            score.num.set(5)
            own.append(score.num.get())
            return 1

        def hook():
            seen.append((peer.results, look(score)))
            try:
                score.num.set(7)
            except Exception:
                pass
        return Hooks(hook).make[obj]()
    scores.CTX[0] = script
    if way == 'readonly':
        b.value = 0
    f = a.queue(ctx, peer)
    f.escaped = peer.run()
    ctx.check(f.escaped is None and f.result is not None, 'the requests are answered')
    ctx.check(len(inner) == 1 and inner[0].result is not None, 'the nested request is answered')
    for n, what in seen:
        ctx.check(n == 0, 'code of the contract does not run after its answer')
        judge(ctx, what, b.expected(), 'when its result is handled')
        ctx.cover('ran')
    if way == 'readonly':
        ctx.check(inner[0].sets == [], 'a method that is read-only writes nothing, however its result is made')
    ctx.check(all(ctx.valid(ctx.eq(s[1], b'\x05')) for s in f.sets) and len(f.sets) == 1, 'the caller writes what it writes')
    ctx.check(len(own) == 2, 'the caller goes on')
    if len(own) == 2:
        judge(ctx, own[0], a.expected(), 'after the nested request')
        ctx.check(own[1] == 5, 'and reads what it wrote')
        ctx.cover('went on')
    ctx.check(peer.errors == [], 'by the protocol')
