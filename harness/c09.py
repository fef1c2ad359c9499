"""Coins never reach a method that is not payable."""
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, addr, info

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01']}

NOT_FOUND, NOT_PAYABLE = 3, 4
PLAIN = ['run', 'view', 'echo', 'vecho', 'typed', 'two', 'on_install', 'on_update']


@unit(cases=[dict(score=s, method=m) for s, ms in (('Scripted', PLAIN + ['pay', 'fallback', 'odd']),
                                                   ('Plain', ['run', 'fallback', 'on_install']),
                                                   ('Heir', ['run', 'pay', 'sub', 'subpay', 'fallback', 'view']))
             for m in ms],
      covers=['paid', 'refused', 'free'],
      bounds='every method of three contracts (an inheriting one among them), any amount from 0 to 2^256, request or '
             'query, positional or named parameters')
def guard(ctx, score, method):
    payable = method in ('pay', 'fallback', 'subpay') and score != 'Plain'
    value = ctx.int('value', 0, 1 << 256)
    named = ctx.flag('named')
    query = ctx.flag('query')
    ran = []

    def script(s, name, *args):
        ran.append([name, s.msg.value])
        return 3
    scores.CTX[0] = script
    peer = Peer(ctx)
    args = {'echo': ['a', 5], 'vecho': ['a', 5], 'two': ['p', 5]}.get(method)
    params = ({args[0]: b'0x5'} if args else {}) if named else (args[1:] if args else [])
    f = peer.invoke(sim.package(getattr(scores, score)), query, raw_addr('hx', 2), raw_addr('cx', 1), value, 10 ** 6,
                    method, params, info(ctx, {}))
    ctx.check(f.result is not None and f.escaped is None and peer.errors == [], 'the request is answered')
    if f.result is None:
        return
    status = f.result[0]
    if method == 'odd':
        ctx.check(status == NOT_FOUND and ran == [], 'payable alone does not make a method callable')
    elif payable:
        ctx.check(status == 0 and len(ran) == 1 and ran[0][0] == method, 'a payable method runs once')
        ctx.check(ran[0][1] == value, 'and sees the amount')
        ctx.cover('paid')
    elif method == 'fallback':
        ctx.check(status == NOT_FOUND and ran == [], 'a fallback that is not payable is not callable')
    elif status == 0:
        ctx.cover('free')
        ctx.check(value == 0, 'a method that is not payable runs only without coins')
        ctx.check(len(ran) == 1 and ran[0][0] == method, 'and runs once')
    else:
        ctx.cover('refused')
        ctx.check(value > 0, 'and always runs without coins')
        ctx.check(status == NOT_PAYABLE and ran == [], 'otherwise it is refused before any of its code runs')
        ctx.check(f.result[1] == 0, 'and charged nothing')


@unit(cases=[dict(same=s) for s in (False, True)], covers=['first', 'second'],
      bounds='two requests in one executor, the first with or without coins, any amounts')
def no_carry_over(ctx, same):
    """the amount of an earlier or outer request does not count for a later or inner one"""
    a = ctx.int('a', 0, 1 << 100)
    b = ctx.int('b', 0, 1 << 100)
    code = sim.package(scores.Scripted)
    state = {}

    def on_call(p, f, to, value, limit, m, params):
        def then(p2, g):
            state['inner'] = g
            p2.reply_call([g.result[0], 0, g.result[2]])
        p.queue_invoke(code, False, raw_addr('cx', 1), raw_addr('cx', 9), value, limit, 'echo', [1], info(ctx, {}),
                       then=then)
        return None
    peer = Peer(ctx, on_call=on_call)
    seen = []

    def script(s, name, *args):
        seen.append([name, s.msg.value])
        if name == 'pay' and same:
            try:
                s.call(addr('cx', 9), 'echo', {'a': 1}, b)
            except BaseException:
                pass
            seen.append(['again', s.msg.value])
        return 1
    scores.CTX[0] = script
    f = peer.invoke(code, False, raw_addr('hx', 2), raw_addr('cx', 1), a, 10 ** 6, 'pay', [], info(ctx, {}))
    ctx.check(f.result is not None and f.result[0] == 0, 'the payable method runs')
    if not same:
        g = peer.invoke(code, False, raw_addr('hx', 2), raw_addr('cx', 1), b, 10 ** 6, 'run', [], info(ctx, {}))
    else:
        g = state.get('inner')
    ctx.check(g is not None and g.result is not None, 'the second request is answered')
    if g is None or g.result is None:
        return
    ctx.check((g.result[0] == 0) == (b == 0), 'the second request is judged by its own amount')
    ctx.check(seen[0][1] == a, 'the first method sees its own amount')
    if same:
        ctx.check(seen[-1][0] == 'again' and seen[-1][1] == a, 'also after the inner request')
    if g.result[0] == 0:
        ctx.check(seen[1][1] == 0, 'and so does the second')
        ctx.cover('first')
    else:
        ctx.check(g.result[0] == NOT_PAYABLE, 'or is refused as not payable')
        ctx.cover('second')
