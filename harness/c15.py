"""An event log carries its signature and exactly the arguments given, and is charged by its size."""
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, addr, info, Address, AddressPrefix

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01']}

SIG = {'Ev': ('Ev(int,bytes)', 1, ['int', 'bytes']), 'Ev0': ('Ev0()', 0, []),
       'Ev5': ('Ev5(int,str,bytes,bool,Address)', 3, ['int', 'str', 'bytes', 'bool', 'Address']),
       'EvD': ('EvD(str,int)', 2, ['str', 'int']),
       'EvZ': ('EvZ(int,str,bytes,bool,Address)', 1, ['int', 'str', 'bytes', 'bool', 'Address'])}
DEFAULTS = {'EvD': ([b'x', b'\x07'], [1, 1]), 'EvZ': ([b'\x00', b'', b'', b'\x00', None], [1, 0, 0, 1, 0])}
NAMES = {'Ev': ['a', 'b'], 'Ev0': [], 'Ev5': ['i', 's', 'b', 't', 'a'], 'EvD': ['s', 'i'],
         'EvZ': ['i', 's', 'b', 't', 'a']}


def intlen(ctx, v, top):
    """length of the shortest two's complement form, as a term"""
    n = top
    for k in range(top - 1, 0, -1):
        n = ctx.ite(ctx.And(v >= -(1 << (8 * k - 1)), v < 1 << (8 * k - 1)), k, n)
    return n


def value(ctx, t, name, size, big=4):
    """(argument, encoded form, length)"""
    if t == 'int':
        v = ctx.int(name, -(1 << (8 * big - 1)), (1 << (8 * big - 1)) - 1)
        return v, sim.enc_int(ctx, v), intlen(ctx, v, big)
    if t == 'str':
        v = ctx.str(name, size)
        return v, v.encode('utf-8'), ctx.len(v.encode('utf-8'))
    if t == 'bytes':
        v = ctx.bytes(name, size)
        return v, v, size
    if t == 'bool':
        v = ctx.flag(name)
        return v, b'\x01' if v else b'\x00', 1
    b = ctx.bytes(name, 20)
    cx = ctx.flag(name + '.contract')
    return Address(AddressPrefix.CONTRACT if cx else AddressPrefix.EOA, b), (b'\x01' if cx else b'\x00') + b, 21


def prices(ctx, schema):
    if schema == 0:
        return {'schema': 0, 'eventLog': ctx.int('eventLog', 0, 10 ** 6)}
    return {'schema': 1, 'log': ctx.int('log', 0, 10 ** 6), 'logBase': ctx.int('logBase', 0, 10 ** 6),
            'eventLog': 77777}


def price(c, n):
    return c['eventLog'] * n if c['schema'] == 0 else c['logBase'] + c['log'] * n


def start(ctx, script, limit, c, query=False, method='run'):
    scores.CTX[0] = script
    peer = Peer(ctx)
    f = peer.invoke(sim.package(scores.Scripted), query, raw_addr('hx', 2), raw_addr('cx', 1), 0, limit, method, [],
                    info(ctx, c))
    ctx.check(f.escaped is None and peer.errors == [] and f.result is not None, 'the request is answered')
    return f


@unit(cases=[dict(ev=e, style=s, table=t) for e in ('Ev', 'Ev0', 'EvD') for s in ('positional', 'named', 'mixed', 'none')
             for t in (0, 1, 2)] + [dict(ev='Ev5', style=s, table=t) for s, t in (('positional', 1), ('named', 0), ('none', 2))] +
      [dict(ev='EvZ', style=s, table=1) for s in ('none', 'first', 'last')],
      covers=['sent', 'outofstep'],
      bounds='five kinds of events with up to 5 arguments of every type, any integers of 32 bits, texts and bytes of up '
             'to 2, arguments given by position, by name or left to defaults, any of them None; three price tables with '
             'any limit')
def emitted(ctx, ev, style, table):
    sig, indexed, types = SIG[ev]
    c = [{'schema': 0, 'eventLog': 100}, {'schema': 1, 'log': 100, 'logBase': 5000, 'eventLog': 7}, {'schema': 0}][table]
    c = dict(c)
    p = lambda n: c.get('eventLog', 0) * n if c['schema'] == 0 else c['logBase'] + c['log'] * n
    limit = ctx.int('limit', 0, 20000)
    args, raw, lens = [], [], []
    for i, t in enumerate(types):
        if ctx.flag('none%d' % i) if i < 2 else False:
            args.append(None)
            raw.append(None)
            lens.append(0)
            continue
        a, r, n = value(ctx, t, 'x%d' % i, ctx.choice('n%d' % i, [0, 2]) if t in ('str', 'bytes') else 0)
        args.append(a)
        raw.append(r)
        lens.append(n)
    if ev in DEFAULTS and style in ('none', 'first', 'last'):
        # the others are left to their defaults
        d, n = DEFAULTS[ev]
        i = {'none': [], 'first': [0], 'last': [len(d) - 1]}[style]
        raw = [raw[j] if j in i else d[j] for j in range(len(d))]
        lens = [lens[j] if j in i else n[j] for j in range(len(d))]
    names = NAMES[ev]

    def script(score, _):
        m = getattr(score, ev)
        if style == 'positional':
            m(*args)
        elif style == 'named':
            m(**dict(reversed(list(zip(names, args)))))
        elif style == 'mixed':
            m(*args[:1], **dict(zip(names[1:], args[1:])))
        elif style == 'first':
            m(*args[:1])
        elif style == 'last':
            m(**{names[-1]: args[-1]})
        elif ev in ('EvD', 'Ev0', 'EvZ'):
            m()
        else:
            try:
                m(*args[:-1])
            except BaseException as e:
                ctx.check(e.code == 5, 'a missing argument is an invalid event')
                m(*args)
        return 1
    f = start(ctx, script, limit, c)
    if f.result is None:
        return
    total = p(len(sig) + sum(lens))
    if f.result[0] == 0:
        ctx.cover('sent')
        ctx.check(ctx.And(f.result[1] == total, total <= limit), 'charged by its size')
        ctx.check(len(f.events) == 1, 'one event')
        if len(f.events) == 1:
            ix, data = f.events[0]
            ctx.check(ctx.eq(ix, [sig.encode()] + raw[:indexed]), 'signature and indexed arguments')
            ctx.check(ctx.eq(data, raw[indexed:]), 'and the others')
    else:
        ctx.cover('outofstep')
        ctx.check(ctx.And(f.result[0] == 10, total > limit, f.result[1] == limit), 'out of step beyond the limit')
        ctx.check(f.events == [], 'and no event')


@unit(cases=[dict(schema=s, big=b) for s in (0, 1) for b in (3, 40)], covers=['sent'],
      bounds='integer arguments of up to 40 bytes, any prices, in both price schemas')
def charge(ctx, schema, big):
    c = prices(ctx, schema)
    n = ctx.int('n', -(1 << (8 * big - 1)), (1 << (8 * big - 1)) - 1)
    if big > 3:
        k = ctx.choice('k', [1, 7, 8, 9, 20, 32, 33, 40])
        ctx.assume(ctx.And(n >= -(1 << (8 * k - 1)), n < (1 << (8 * k - 1))))
        if k > 1:
            ctx.assume(ctx.Or(n < -(1 << (8 * k - 9)), n >= 1 << (8 * k - 9)))
        size = k
    else:
        size = 3
        for k in (2, 1):
            if -(1 << (8 * k - 1)) <= n < 1 << (8 * k - 1):
                size = k

    def script(score, _):
        score.Ev(n, b'abcd')
        return 0
    f = start(ctx, script, 1 << 60, c)
    if f.result is None:
        return
    ctx.check(f.result[0] == 0 and len(f.events) == 1, 'one event')
    ctx.check(f.result[1] == price(c, 13 + size + 4), 'an integer counts with its shortest form')
    ctx.cover('sent')


WRONG = {'int': ['a', b'a', 1.5, [1]], 'str': [1, b'a', True], 'bytes': ['a', 1, bytearray(b'a')], 'bool': [1, 'a', 0],
         'Address': ['hx', b'\x00' * 21, 5]}


@unit(cases=[dict(at=i) for i in range(5)] + [dict(at=a) for a in ('many', 'twice', 'unknown', 'few')],
      covers=['refused'], bounds='every argument of a five argument event with values of other types; missing, extra and '
      'duplicate arguments; caught or not')
def wrong(ctx, at):
    good = [5, 's', b'b', True, addr('hx', 1)]
    limit = 10 ** 6
    catch = ctx.flag('catch')
    args, kw = list(good), {}
    if at == 'many':
        args.append(1)
    elif at == 'twice':
        args, kw = good[:4], {'i': 5}
    elif at == 'unknown':
        args, kw = good[:4], {'zz': 5}
    elif at == 'few':
        args = good[:ctx.choice('n', [0, 1, 4])]
    else:
        t = SIG['Ev5'][2][at]
        args[at] = ctx.choice('bad', WRONG[t])

    def script(score, _):
        try:
            score.Ev5(*args, **kw)
        except BaseException:
            if not catch:
                raise
        return 1
    f = start(ctx, script, limit, {'schema': 0, 'eventLog': 3})
    if f.result is None:
        return
    ctx.check(f.events == [], 'no event is recorded')
    ctx.check(f.result[0] == (0 if catch else 5) and f.result[1] == 0, 'it is an invalid event, and nothing is charged')
    ctx.cover('refused')


@unit(cases=[dict()], covers=['order'], bounds='three events among writes in one method, every integer of 16 bits')
def order(ctx):
    ns = [ctx.int('n%d' % i, -(1 << 15), (1 << 15) - 1) for i in range(3)]

    def script(score, _):
        score.Ev(ns[0], b'0')
        score.dic[1] = b'x'
        score.Ev(ns[1], b'1')
        score.Ev0()
        score.Ev(ns[2], None)
        return 1
    f = start(ctx, script, 10 ** 9, {})
    if f.result is None:
        return
    ctx.check(f.result[0] == 0 and len(f.events) == 4, 'every event once')
    if len(f.events) == 4:
        for i, j in ((0, 0), (1, 1), (3, 2)):
            ctx.check(ctx.eq(f.events[i][0][1], sim.enc_int(ctx, ns[j])), 'in order')
            ctx.check(ctx.eq(f.events[i][1], [[b'0', b'1', None][j]]), 'with its own data')
        ctx.check(ctx.eq(f.events[2], [[b'Ev0()'], []]), 'in order')
        ctx.cover('order')
