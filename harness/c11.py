"""Every INVOKE is answered by exactly one RESULT, and the executor stays usable, however a method ends."""
from hashlib import sha3_256
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, addr, info
from iconservice import IconScoreException, revert

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01',
                        'the peer follows the message protocol']}


class StrRaises(Exception):
    def __str__(self):
        raise ValueError('no text')


class StrExits(Exception):
    def __str__(self):
        raise SystemExit(3)


class StrSurrogate(Exception):
    def __str__(self):
        raise ValueError('\ud800')


class StrRaisesSelf(Exception):
    def __str__(self):
        raise StrRaisesSelf()


class ReprRaises(Exception):
    def __repr__(self):
        raise KeyError('no repr')


class StrNotText(Exception):
    def __str__(self):
        return 5


class CodeRaises(IconScoreException):
    @property
    def code(self):
        raise ValueError('no code')


class MessageRaises(IconScoreException):
    @property
    def message(self):
        raise ValueError('no message')


class MessageNotText(IconScoreException):
    @property
    def message(self):
        return object()


class Loop(list):
    pass


class BadItems(dict):
    def items(self):
        raise StrRaisesSelf()


class ExitItems(dict):
    def items(self):
        raise SystemExit(2)


def looped():
    a = []
    a.append(a)
    return a


def deep(n):
    a = []
    for _ in range(n):
        a = [a]
    return a


def recurse(n=0):
    return recurse(n + 1)


def throw(e):
    raise e


GOOD = {'none': (lambda s: None, None), 'int': (lambda s: 12, 12), 'str': (lambda s: 'é', 'é'), 'empty': (lambda s: '', ''),
        'bytes': (lambda s: b'\xff\x00', b'\xff\x00'), 'bool': (lambda s: True, True),
        'addr': (lambda s: addr('cx', 7), ['addr', raw_addr('cx', 7)]), 'list': (lambda s: [1, 'a', [b'x'], None], [1, 'a', [b'x'], None]),
        'tuple': (lambda s: (1, (2,)), [1, [2]]), 'dict': (lambda s: {'a': 1, 'b': {'c': False}}, {'a': 1, 'b': {'c': False}}),
        'deep': (lambda s: deep(40), deep(40))}
UNENCODABLE = {'object': lambda s: object(), 'float': lambda s: 1.5, 'set': lambda s: {1}, 'surrogate': lambda s: '\ud800',
               'nested': lambda s: {'a': [1, {2}]}, 'intkey': lambda s: {1: 2}, 'nonekey': lambda s: {None: 2},
               'class': lambda s: int, 'self': lambda s: s, 'lambda': lambda s: (lambda: 1), 'loop': lambda s: looped(),
               'generator': lambda s: (x for x in [1]), 'badkey': lambda s: {'\ud800': 1}, 'complex': lambda s: 1j,
               'bytearray': lambda s: [memoryview(b'1')], 'baditems': lambda s: BadItems(a=1), 'exititems': lambda s: ExitItems(a=1)}
RAISES = {'Exception': Exception, 'ValueError': ValueError('x'), 'KeyError': KeyError('k'), 'Assertion': AssertionError,
          'TypeError': lambda s: 1 + 'a', 'BaseException': BaseException('b'), 'SystemExit': SystemExit(1),
          'Interrupt': KeyboardInterrupt, 'GeneratorExit': GeneratorExit, 'StopIteration': StopIteration(4),
          'Memory': MemoryError, 'recursion': lambda s: recurse(), 'revert': lambda s: revert('no', 5),
          'revert0': lambda s: revert(), 'score': lambda s: throw(IconScoreException('m', 3)), 'surrogate': ValueError('\ud800'),
          'scoresurrogate': lambda s: throw(IconScoreException('\ud800', 3)), 'nottext': lambda s: throw(IconScoreException(object(), 3)),
          'nonemessage': lambda s: throw(IconScoreException(None, 1)), 'group': lambda s: (_ for _ in ()).throw(ExceptionGroup('g', [ValueError('1')])),
          'StrRaises': StrRaises, 'StrExits': StrExits, 'StrSurrogate': StrSurrogate, 'StrRaisesSelf': StrRaisesSelf,
          'ReprRaises': ReprRaises, 'StrNotText': StrNotText, 'CodeRaises': CodeRaises('m'), 'MessageRaises': MessageRaises('m'),
          'MessageNotText': MessageNotText('m'), 'codetext': lambda s: throw(IconScoreException('m', 'text')), 'codenone': lambda s: throw(IconScoreException('m', None)),
          'codehuge': lambda s: throw(IconScoreException('m', 1 << 200)), 'codenegative': lambda s: throw(IconScoreException('m', -(1 << 200))),
          'codefloat': lambda s: throw(IconScoreException('m', 2.5)), 'revertcode': lambda s: revert('m', 'text'),
          'unicode': lambda s: b'\xff'.decode('utf-8'), 'dictloop': lambda s: s.icx.transfer('not an address', 1),
          'chained': lambda s: chain()}
COSTS = {'schema': 0, 'get': 1, 'set': 3, 'replace': 2, 'delete': -1, 'eventLog': 1}


def chain():
    try:
        raise StrSurrogate()
    except StrSurrogate as e:
        raise StrRaises() from e


def usable(ctx, peer, code):
    """another request is served as if nothing had happened"""
    n = peer.results
    store = dict(peer.store)
    seen = []

    def script(score, name, *a):
        seen.append([score.msg.sender, score.msg.value, score.dic[3], getattr(score, 'leftover', None)])
        score.dic[3] = b'fresh'
        seen.append(score.dic[3])
        return 77
    scores.CTX[0] = script
    g = peer.invoke(code, False, raw_addr('hx', 5), raw_addr('cx', 1), 0, 1000, 'run', [], info(ctx, COSTS))
    ctx.check(g.escaped is None and g.result is not None and peer.results == n + 1, 'the next request is answered')
    if g.result is None:
        return
    k = sha3_256(b'\x01\x83dic\x03').digest()
    used = len(store.get(k, b'')) + 15 - (5 if k in store else 0) + 5
    ctx.check(g.result == (0, used, 77), 'with its own result and its own charges')
    ctx.check(len(seen) == 2 and seen[0][0] == addr('hx', 5) and seen[0][2] == store.get(k) and seen[1] == b'fresh',
              'and sees its own request and the state as it was')
    ctx.check(len(seen) == 2 and seen[0][3] is None, 'and nothing that earlier requests left in their contract object')


@unit(cases=[dict(group=g) for g in ('good', 'bad value', 'exception')], covers=['good', 'bad value', 'exception'],
      bounds='11 kinds of results, 17 that cannot be transported, 38 kinds of exceptions, hostile ones among them, after '
             '0 to 2 pending writes, in a request or a query, with any limit that suffices; a second request follows')
def endings(ctx, group):
    table = {'good': GOOD, 'bad value': UNENCODABLE, 'exception': RAISES}[group]
    how = ctx.choice('how', sorted(table))
    pending = ctx.choice('pending', [0, 1, 2])
    query = ctx.flag('query') if pending == 0 else False
    limit = ctx.int('limit', 10 ** 4, 1 << 60)
    code = sim.package(scores.Scripted)
    peer = Peer(ctx)
    k = [sha3_256(b'\x01\x83dic' + bytes([i])).digest() for i in range(4)]
    peer.store[k[0]] = b'old'
    peer.store[k[3]] = b'kept'
    before = dict(peer.store)

    def script(score, name, *a):
        score.leftover = 1
        for i in range(pending):
            score.dic[i] = b'new'
        if pending:
            score.set_fee_sharing_proportion(40)
        x = table[how]
        if group == 'good':
            return x[0](score)
        if group == 'exception' and (isinstance(x, BaseException) or isinstance(x, type)):
            raise x if isinstance(x, BaseException) else x()
        return x(score)
    scores.CTX[0] = script
    f = peer.invoke(code, query, raw_addr('hx', 2), raw_addr('cx', 1), 0, limit, 'run', [], info(ctx, COSTS))
    ctx.check(f.escaped is None, 'the executor survives')
    ctx.check(peer.results == 1 and peer.errors == [] and peer.out == [], 'exactly one RESULT and no message left over')
    if f.result is None:
        return
    status, used, ret = f.result
    ctx.cover(group)
    ctx.check(isinstance(status, int) and used >= 0 and used <= limit, 'a status and steps within the limit')
    if group == 'good':
        ctx.check(status == 0 and ctx.eq(ret, table[how][1]), 'the value is delivered')
        ctx.check(used == pending * 9 - (3 if pending else 0), 'with its charges')
    else:
        ctx.check(status != 0, 'a failure is reported')
        ctx.check(isinstance(ret, str) or ret is None, 'with a text')
        ctx.check(peer.store == before, 'and leaves the state as it was')
    usable(ctx, peer, code)


@unit(cases=[dict(depth=d) for d in (1, 2)], covers=['ok', 'failed'],
      bounds='requests nested up to 2 deep, each level ending in a result, a revert, an exception or a hostile one, caught '
             'by its caller or not; a following request')
def nested(ctx, depth):
    code = sim.package(scores.Scripted)
    ends = [ctx.choice('end%d' % i, ['ok', 'revert', 'exit', 'StrRaises', 'object']) for i in range(depth + 1)]
    catch = [ctx.flag('catch%d' % i) for i in range(depth)]
    peer = Peer(ctx)
    level = [0]
    got = []

    def on_call(p, f, to, value, limit, m, params):
        def then(p2, g):
            p2.reply_call([g.result[0], 0, g.result[2]])
        p.queue_invoke(code, False, raw_addr('cx', 1), raw_addr('cx', 9), 0, limit, 'run', [], info(ctx, COSTS), then=then)
    peer.on_call = on_call

    def script(score, name, *a):
        n = level[0]
        level[0] += 1
        ctx.check(getattr(score, 'leftover', None) is None, 'a contract object for every request')
        score.leftover = 1
        score.dic[n] = b'n'
        if n < depth:
            try:
                got.append([n, score.call(addr('cx', 9), 'run', {})])
            except BaseException:
                got.append([n, 'failed'])
                if not catch[n]:
                    raise
        end = ends[n]
        if end == 'revert':
            revert('stop', 2)
        elif end == 'exit':
            raise SystemExit(1)
        elif end == 'StrRaises':
            raise StrRaises()
        elif end == 'object':
            return object()
        return n
    scores.CTX[0] = script
    f = peer.invoke(code, False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 6, 'run', [], info(ctx, COSTS))
    ctx.check(f.escaped is None and peer.errors == [] and peer.out == [], 'the executor survives')
    ctx.check(peer.results == depth + 1, 'one RESULT for every INVOKE')
    if f.result is None:
        return
    ok = None
    want = set()
    for i in range(depth, -1, -1):
        ok = ends[i] == 'ok' and (i == depth or ok or catch[i])
        want = want | {i} if ok else set()
    ctx.check((f.result[0] == 0) == bool(ok), 'the outer request fails when it ends so, or its callee failed uncaught')
    ctx.check(set(peer.store) == {sha3_256(b'\x01\x83dic' + bytes([i])).digest() for i in want}, 'and the writes of the '
              'requests that failed are gone')
    ctx.cover('ok' if ok else 'failed')
    usable(ctx, peer, code)


@unit(cases=[dict(n=n) for n in (1, 2, 3)], covers=['ok', 'outofstep'],
      bounds='up to 3 removals whose charges arrive with the end of the request, any lengths and prices, any limit')
def late_charges(ctx, n):
    code = sim.package(scores.Scripted)
    peer = Peer(ctx)
    limit = ctx.int('limit', 0, 1 << 40)
    c = {'schema': 0, 'delete': ctx.int('delete', 0, 10 ** 6)}
    total = 0
    for i in range(n):
        v = ctx.blob('old%d' % i, 1, 200)
        peer.store[sha3_256(b'\x01\x83dic' + bytes([i])).digest()] = v
        total = total + c['delete'] * ctx.len(v)
    before = dict(peer.store)

    def script(score, name, *a):
        for i in range(n):
            score.dic.remove(i)
        return 7
    scores.CTX[0] = script
    f = peer.invoke(code, False, raw_addr('hx', 2), raw_addr('cx', 1), 0, limit, 'run', [], info(ctx, c))
    ctx.check(f.escaped is None and peer.errors == [] and peer.results == 1 and peer.out == [], 'one RESULT')
    if f.result is None:
        return
    status, used, ret = f.result
    if status == 0:
        ctx.cover('ok')
        ctx.check(ctx.And(used == total, total <= limit) and ret == 7, 'success pays for everything')
        ctx.check(peer.store == {}, 'everything is removed')
    else:
        ctx.cover('outofstep')
        ctx.check(ctx.And(status == 10, used == limit, total > limit), 'failure is out of step')
        ctx.check(len(peer.store) == len(before), 'and nothing is removed')
    usable(ctx, peer, code)
