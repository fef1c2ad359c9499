"""Asking for the interface of a package asks the service for nothing, and leaves everything else alone."""
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, addr, typed
from harness.c22 import Request, look, judge
from harness.c16 import deploy
from iconservice import (sha3_256, sha_256, json_dumps, json_loads, recover_key, create_address_with_key, revert,
                         create_interface_score, IconScoreException)
from pyexec.iconscore.icon_score_base2 import Icx

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01',
                        'what the packaged code does is one of the listed operations, alone or after another one; '
                        'everything about the surrounding request is symbolic']}
A = addr('cx', 9)


def kept(score, f):
    """an object that an earlier, ordinary request left behind"""
    return f(KEPT[0])


KEPT = [None]
DEEDS = {
    'nothing': lambda s: None,
    'var get': lambda s: s.var.get(), 'var set': lambda s: s.num.set(3), 'var remove': lambda s: s.var.remove(),
    'dict get': lambda s: s.dic[b'k'], 'dict set': lambda s: s.dic.__setitem__(b'k', b'v'), 'dict in': lambda s: b'k' in s.dic,
    'array len': lambda s: len(s.arr), 'array in': lambda s: b'a' in s.arr, 'array put': lambda s: s.arr.put(b'v'),
    'array get': lambda s: s.arr[0], 'db get': lambda s: s.db.get(b'k'), 'db put': lambda s: s.db.put(b'k', b'v'),
    'db delete': lambda s: s.db.delete(b'k'), 'db close': lambda s: s.db.close(), 'sub db': lambda s: s.db.get_sub_db(b'p').get(b'k'),
    'balance': lambda s: s.icx.get_balance(s.address), 'balance of other': lambda s: Icx(None, A).get_balance(A),
    'transfer': lambda s: s.icx.transfer(A, 5), 'send': lambda s: s.icx.send(A, 5),
    'call': lambda s: s.call(A, 'm', {}), 'interface': lambda s: create_interface_score(A, scores.Callee).bar(),
    'event': lambda s: s.Ev(3, b'x'), 'fee': lambda s: s.set_fee_sharing_proportion(7), 'get fee': lambda s: s.get_fee_sharing_proportion(),
    'sha3': lambda s: sha3_256(b'abc'), 'sha2': lambda s: sha_256(b'abc'), 'dumps': lambda s: json_dumps({'a': 1}),
    'loads': lambda s: json_loads('{}'), 'recover': lambda s: recover_key(b'0' * 32, b'1' * 65),
    'key': lambda s: create_address_with_key(b'\x02' + b'1' * 32),
    'revert': lambda s: revert('no', 3), 'exit': lambda s: (_ for _ in ()).throw(SystemExit(3)),
    'msg': lambda s: s.msg.sender, 'tx': lambda s: s.tx.hash, 'block': lambda s: s.block_height, 'now': lambda s: s.now(),
    'owner of': lambda s: s.get_owner(A), 'owner': lambda s: s.owner,
    'kept var': lambda s: kept(s, lambda k: k.num.get()), 'kept set': lambda s: kept(s, lambda k: k.num.set(8)),
    'kept array': lambda s: kept(s, lambda k: b'x' in k.arr), 'kept event': lambda s: kept(s, lambda k: k.Ev(1, b'y')),
    'kept icx': lambda s: KEPT[1].transfer(A, 4), 'kept balance': lambda s: KEPT[1].get_balance(A),
    'kept msg': lambda s: kept(s, lambda k: k.msg.sender), 'kept call': lambda s: kept(s, lambda k: k.call(A, 'm', {})),
}
LOOKS = ('msg', 'tx', 'block', 'now', 'get fee', 'kept msg')
COSTS = {'schema': 0, 'get': 1, 'set': 3, 'replace': 2, 'delete': -1, 'eventLog': 1, 'apiCall': 10}


def serve(peer):
    """the service answers whatever is asked, so that a question that must not come does not end the run"""
    peer.on_contains = lambda p, d: [False, 1, 1]
    peer.on_call = lambda p, f, to, value, limit, m, params: [0, 3, None]


def asked(peer, start):
    return [m for m in peer.log[start:] if m[0] != sim.GETAPI]


def remember(score, name):
    KEPT[0:] = [score, score.icx]
    return 1


def deed(ctx, names, did):
    def init(score):
        for n in names:
            try:
                did.append((n, DEEDS[n](score)))
            except Exception:
                did.append((n, 'refused'))
            except BaseException as e:
                if type(e).__module__.startswith('symex'):
                    raise
                did.append((n, 'refused'))
    return init


def quiet(ctx, peer, start, did):
    ctx.check(asked(peer, start) == [], 'the service is asked for nothing')
    for n, r in did:
        if n in LOOKS:
            ctx.check(isinstance(r, str) and r == 'refused' or r is None, 'there is no call to look at')


def after(ctx, peer, r):
    """an ordinary request works as ever"""
    seen = []

    def script(score, _):
        seen.append(look(score))
        score.num.set(9)
        seen.append(score.num.get())
        return 4
    scores.CTX[0] = script
    peer.on_api = None
    g = r.queue(ctx, peer)
    g.escaped = peer.run()
    ctx.check(g.escaped is None and g.result is not None and g.result[0] == 0 and g.result[2] == 4, 'the next request is served')
    if len(seen) == 2:
        judge(ctx, seen[0], r.expected(), 'in the request after it')
        ctx.check(seen[1] == 9 and len(g.sets) == 1, 'and works on the state')
        ctx.cover('after')


def prepare(ctx, peer):
    """a request that leaves objects behind"""
    KEPT[0:] = [None]
    scores.INIT[0] = None
    scores.CTX[0] = remember
    f = Request(ctx, 'r9', False).queue(ctx, peer)
    f.escaped = peer.run()
    ctx.check(f.escaped is None and f.result is not None and KEPT[0] is not None, 'the first request is served')


@unit(cases=[dict(what=w) for w in DEEDS], covers=['answered', 'after'],
      bounds='each of %d operations of the contract API, tried by the constructor while its package is asked for its interface; '
             'an ordinary request before and after, with everything about it symbolic' % len(DEEDS))
def alone(ctx, what):
    peer = Peer(ctx)
    serve(peer)
    prepare(ctx, peer)
    did = []
    scores.INIT[0] = deed(ctx, [what], did)
    start = len(peer.log)
    r = peer.get_api(sim.package(scores.Curious))
    scores.INIT[0] = None
    ctx.check(r is not None and len(peer.apis) == 1, 'the question is answered once')
    ctx.check(len(did) == 1, 'the constructor runs')
    ctx.cover('answered')
    quiet(ctx, peer, start, did)
    n = Request(ctx, 'r8', False)
    n.limit = ctx.int('limit8', 1000, 1 << 63)
    after(ctx, peer, n)


@unit(cases=[dict(what=w, query=q) for w in DEEDS for q in (False, True)], covers=['answered', 'after', 'same'],
      bounds='the same while a contract waits for the answer to its call, in a transaction or a query with everything about '
             'it symbolic; two questions in a row; that contract looks at its call, changes state, shares fees and spends '
             'steps before and after')
def within(ctx, what, query):
    a = Request(ctx, 'r0', False)
    a.limit = ctx.int('limit0', 1000, 1 << 63)
    pct = ctx.int('pct', 0, 100)
    used = ctx.int('used', 0, 400)
    peer = Peer(ctx)
    serve(peer)
    prepare(ctx, peer)
    did, own, start = [], [], []

    def on_call(p, f, to, value, lim, m, params):
        start.append(len(p.log))
        scores.INIT[0] = deed(ctx, [what], did)
        p.send(sim.GETAPI, sim.package(scores.Curious).encode())

    def on_api(p, data):
        quiet(ctx, p, start[0], did)
        if len(p.apis) == 1:
            p.send(sim.GETAPI, sim.package(scores.Curious).encode())
            return
        scores.INIT[0] = None
        p.reply_call([0, used, None])
    peer.on_call, peer.on_api = on_call, on_api

    def script(score, name):
        own.append(look(score))
        if not query:
            score.set_fee_sharing_proportion(pct)
            score.num.set(5)
        score.call(addr('cx', 9), 'deploy', {})
        own.append(look(score))
        own.append(score.get_fee_sharing_proportion())
        if not query:
            score.num.set(6)
        own.append(score.num.get())
        return 1
    scores.CTX[0] = script
    f = a.queue(ctx, peer, "pay", query)
    f.escaped = peer.run()
    ctx.check(f.escaped is None and f.result is not None, 'the request is answered')
    ctx.check(len(peer.apis) == 2 and len(did) == 2, 'the questions are answered')
    ctx.cover('answered')
    if f.result is None:
        return
    ctx.check(f.result[0] == 0 and f.result[2] == 1 and len(own) == 4, 'the contract goes on')
    if len(own) == 4:
        judge(ctx, own[0], a.expected(), 'before')
        judge(ctx, own[1], a.expected(), 'after')
        ctx.check(ctx.eq(own[2], 0 if query else pct), 'the fee sharing is the one it set')
        # one entry of one byte: set, replaced, read; not there in a query
        ctx.check(f.result[1] == used + (0 if query else 1), 'the steps are its own ones and those of the call')
        ctx.check(len(f.sets) == (0 if query else 2) and f.events == [] and len(f.calls) == 1, 'its effects are its own')
        ctx.cover('same')
    ctx.check(peer.errors == [], 'by the protocol')
    n = Request(ctx, 'r8', False)
    n.limit = ctx.int('limit8', 1000, 1 << 63)
    after(ctx, peer, n)


MODULE = '''
class Front(InterfaceScore):
    @interface
    def go(self, a: int): pass

def attempt(f):
    try:
        return f()
    except BaseException:
        return None

WHO = Address.from_string('cx' + '09' * 20)
%s

class Contract(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
    def on_install(self):
        pass
    def on_update(self):
        pass
    @external
    def run(self, a: int = %s):
        pass
'''
BODIES = {'interface': 'attempt(lambda: create_interface_score(WHO, Front).go(1))',
          'hash': 'attempt(lambda: sha3_256(b"abc"))', 'json': 'attempt(lambda: json_dumps({"a": 1}))',
          'key': 'attempt(lambda: create_address_with_key(b"\\x02" + b"1" * 32))',
          'recover': 'attempt(lambda: recover_key(b"0" * 32, b"1" * 65))', 'raise': '1 // 0', 'exit': 'raise SystemExit(1)',
          'fee': 'attempt(lambda: IconScoreBase.set_fee_sharing_proportion(object(), 7))',
          'log': 'attempt(lambda: Logger.info("text", "tag"))'}
# a default value whose own operations are code of the package
DEFAULTS = {'lt': '__lt__', 'bits': 'bit_length', 'bytes': 'to_bytes', 'repr': '__repr__', 'add': '__add__'}


def hostile(kind):
    return '''
class Value(int):
    def %s(self, *a, **kw):
        attempt(lambda: create_interface_score(WHO, Front).go(1))
        attempt(lambda: sha3_256(b"abc"))
        return int.%s(self, *a, **kw)
''' % (DEFAULTS[kind], DEFAULTS[kind])


@unit(cases=[dict(body=b) for b in list(BODIES) + list(DEFAULTS)], covers=['answered', 'same'],
      bounds='what the modules of a package do on being imported and what its default values do on being reported, while a '
             'contract with everything symbolic waits for its call')
def module(ctx, body):
    a = Request(ctx, 'r0', False)
    a.limit = ctx.int('limit0', 1000, 1 << 63)
    used = ctx.int('used', 0, 400)
    peer = Peer(ctx)
    serve(peer)
    path = deploy(MODULE % ((BODIES[body], '3') if body in BODIES else (hostile(body), 'Value(3)')))
    start, own = [], []

    def on_call(p, f, to, value, lim, m, params):
        start.append(len(p.log))
        p.send(sim.GETAPI, path.encode())

    def on_api(p, data):
        quiet(ctx, p, start[0], [])
        p.reply_call([0, used, None])
    peer.on_call, peer.on_api = on_call, on_api

    def script(score, name):
        score.call(addr('cx', 9), 'deploy', {})
        own.append(look(score))
        return 1
    scores.CTX[0] = script
    f = a.queue(ctx, peer)
    f.escaped = peer.run()
    ctx.check(f.escaped is None and f.result is not None and len(peer.apis) == 1, 'the question and the request are answered')
    ctx.cover('answered')
    if f.result is not None and own:
        judge(ctx, own[0], a.expected(), 'after')
        ctx.check(f.result[1] == used and f.sets == [] and f.events == [] and len(f.calls) == 1, 'its effects are its own')
        ctx.cover('same')
    ctx.check(peer.errors == [], 'by the protocol')
