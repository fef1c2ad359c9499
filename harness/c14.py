"""A call leaves the executor as the contract wrote it: receiver, amount, method and arguments."""
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, addr, info, Address, AddressPrefix

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01',
                        'the values of arguments as decided in C02']}


def start(ctx, script, on_call=None):
    scores.CTX[0] = script
    peer = Peer(ctx, on_call=on_call or (lambda p, f, to, value, limit, m, params: [0, 0, None]))
    f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 6, 'run', [],
                    info(ctx, {}))
    ctx.check(f.escaped is None and peer.errors == [] and f.result is not None, 'the request is answered')
    return f


def target(ctx, name='to'):
    body = ctx.bytes(name, 20)
    cx = ctx.flag(name + '.contract')
    return Address(AddressPrefix.CONTRACT if cx else AddressPrefix.EOA, body), (b'\x01' if cx else b'\x00') + body


@unit(cases=[dict(first=a, second=b) for a in ('amount', 'plain', 'amount twice', 'failing', 'caught')
             for b in ('plain', 'amount')],
      covers=['attached', 'not attached'],
      bounds='two or three calls through one interface object, every amount of 256 bits, every receiver, callees that '
             'succeed or fail')
def amounts(ctx, first, second):
    """an amount set on an interface object goes with the next call and with no other"""
    x = ctx.int('x', 0, 1 << 256)
    y = ctx.int('y', 0, 1 << 256)
    z = ctx.int('z', 0, 1 << 256)
    to, raw = target(ctx)
    n = ctx.int('n', -(1 << 64), 1 << 64)
    fail = first in ('failing', 'caught')
    count = [0]

    def on_call(p, f, t, value, limit, m, params):
        count[0] += 1
        return [33, 0, 'no'] if fail and count[0] == 1 else [0, 0, 5]

    def script(score, _):
        i = score.create_interface_score(to, scores.Callee)
        j = score.create_interface_score(to, scores.Callee)
        if first == 'plain':
            i.foo(n, b'q')
        elif first == 'amount twice':
            i.icx(y).icx(x).foo(n, b'q')
        else:
            try:
                i.icx(x).foo(n, b'q')
            except BaseException:
                if not fail:
                    raise
        if second == 'plain':
            i.bar()
        else:
            i.icx(z)
            j.bar()
            i.bar()
        return 1
    f = start(ctx, script, on_call)
    if f.result is None:
        return
    ctx.check(f.result[0] == 0, 'success')
    want = [(0 if first == 'plain' else x, 'foo', [n, b'q'])]
    want += [(0, 'bar', [])] if second == 'plain' else [(0, 'bar', []), (z, 'bar', [])]
    ctx.check(len(f.calls) == len(want), 'every call is made once')
    for (t, value, limit, m, params), (v, name, args) in zip(f.calls, want):
        ctx.check(ctx.eq(t, raw), 'to the receiver')
        ctx.check(value == v, 'with its own amount')
        ctx.check(m == name and ctx.eq(params, args), 'method and arguments')
        ctx.cover('not attached' if isinstance(v, int) and name == 'bar' else 'attached')


@unit(cases=[dict(kind=k) for k in ('negative', 'float', 'text', 'none', 'bool')], covers=['refused', 'kept'],
      bounds='amounts that are not integers from zero; every negative one of 256 bits')
def bad_amounts(ctx, kind):
    bad = {'negative': ctx.int('bad', -(1 << 256), -1), 'float': 1.5, 'text': '5', 'none': None, 'bool': True}[kind]
    out = []

    def script(score, _):
        i = score.create_interface_score(addr('cx', 9), scores.Callee)
        try:
            i.icx(bad)
            out.append('taken')
        except BaseException as e:
            out.append(e.code)
        i.bar()
        return 1
    f = start(ctx, script)
    if f.result is None:
        return
    ctx.check(f.result[0] == 0 and len(f.calls) == 1, 'success')
    if kind == 'bool':
        ctx.check(out == ['taken'] and f.calls[0][1] == 1, 'a truth value is an integer')
        ctx.cover('kept')
    else:
        ctx.check(out == [6], 'refused as an invalid parameter')
        ctx.check(f.calls[0][1] == 0, 'and nothing is attached')
        ctx.cover('kept')
    ctx.cover('refused')


@unit(cases=[dict(how=h) for h in ('call', 'call2', 'transfer', 'send', 'fallback', 'none', 'args', 'kwargs', 'mixed',
                                   'empty')],
      covers=['sent'],
      bounds='every way to call, every receiver and amount of 256 bits, arguments of 64 bits and 2 bytes, every method '
             'name of 3 characters')
def shapes(ctx, how):
    to, raw = target(ctx)
    v = ctx.int('v', 0, 1 << 256)
    n = ctx.int('n', -(1 << 64), 1 << 64)
    b = ctx.bytes('b', 2)
    name = ctx.str('name', 3)
    given = {'a': n, 'b': [b, None, True], 'c': {'d': addr('hx', 4)}}
    got = []

    def script(score, _):
        i = score.create_interface_score(to, scores.Callee)
        if how == 'call':
            got.append(score.call(to, name, given, v))
        elif how == 'call2':
            got.append(score.call(addr_to=to, func_name=name, kw_dict={}))
        elif how == 'transfer':
            score.icx.transfer(to, v)
        elif how == 'send':
            score.icx.send(to, v)
        elif how == 'fallback':
            score.call(to, 'fallback', {}, v)
        elif how == 'none':
            score.call(to, None, {}, v)
        elif how == 'args':
            got.append(i.icx(v).foo(n, b))
        elif how == 'kwargs':
            got.append(i.icx(v).foo(b=b, a=n))
        elif how == 'mixed':
            got.append(i.icx(v).foo(n, b=b))
        else:
            got.append(i.icx(v).bar())
        return 1
    r = ctx.int('r', -(1 << 64), 1 << 64)
    f = start(ctx, script, lambda p, f, t, value, limit, m, params: [0, 0, {'x': [r, None, b]}])
    if f.result is None:
        return
    ctx.check(f.result[0] == 0 and len(f.calls) == 1, 'one call')
    if len(f.calls) != 1:
        return
    t, value, limit, m, params = f.calls[0]
    ctx.check(ctx.eq(t, raw), 'to the receiver')
    ctx.check(value == (0 if how == 'call2' else v), 'with the amount')
    ctx.check(ctx.eq(m, {'call': name, 'call2': name, 'args': 'foo', 'kwargs': 'foo', 'mixed': 'foo', 'empty': 'bar'}.get(how, '')),
              'for the method, or none for a transfer')
    want = {'call': {'a': n, 'b': [b, None, True], 'c': {'d': ['addr', raw_addr('hx', 4)]}}, 'args': [n, b],
            'kwargs': {'a': n, 'b': b}, 'mixed': {'.': [n], 'b': b}}.get(how, [])
    ctx.check(ctx.eq(params, want), 'with the arguments')
    for g in got:
        ctx.check(ctx.eq(g, {'x': [r, None, b]}), 'and the result comes back as it is')
    ctx.check(list(given) == ['a', 'b', 'c'], 'and the arguments of the caller are left alone')
    ctx.cover('sent')


@unit(cases=[dict(kind=k) for k in ('none', 'notinterface', 'class', 'nocls')], covers=['refused'],
      bounds='interface objects without a receiver and misuse of interface methods')
def misuse(ctx, kind):
    v = ctx.int('v', 0, 1 << 100)

    def script(score, _):
        if kind == 'none':
            i = score.create_interface_score(None, scores.Callee)
            i.icx(v).bar()
        elif kind == 'notinterface':
            scores.Callee.bar(score)
        elif kind == 'class':
            score.create_interface_score(addr('cx', 9), int).bar()
        else:
            score.create_interface_score(addr('cx', 9), object).bar()
        return 1
    f = start(ctx, script)
    if f.result is None:
        return
    ctx.check(f.result[0] != 0 and f.calls == [], 'refused without a call')
    ctx.check(f.result[0] == {'none': 5, 'notinterface': 7}.get(kind, f.result[0]), 'with its status')
    ctx.cover('refused')


@unit(cases=[dict()], covers=['read'], bounds='every address and every balance of 256 bits')
def balances(ctx):
    to, raw = target(ctx)
    v = ctx.int('v', 0, 1 << 256)
    asked, out = [], []

    def bal(a):
        asked.append(a)
        return v
    scores.CTX[0] = lambda score, _: out.append(score.icx.get_balance(to))
    peer = Peer(ctx)
    peer.balance = bal
    f = peer.invoke(sim.package(scores.Scripted), ctx.flag('query'), raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 6,
                    'run', [], info(ctx, {}))
    ctx.check(f.result is not None and f.result[0] == 0, 'success')
    ctx.check(len(asked) == 1 and ctx.eq(asked[0], raw) and len(out) == 1 and out[0] == v, 'the balance of the address')
    ctx.cover('read')
