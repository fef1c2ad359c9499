"""A failure carries its own status and message, and a callee's failure reaches its caller unchanged."""
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, addr, info
from iconservice import IconScoreException, revert, Address, VarDB, DictDB
from pyexec.base.exception import IconServiceBaseException

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01']}


class Custom(IconScoreException):
    pass


class Own(IconScoreException):
    def __init__(self, message, index):
        super().__init__(message, index)


def go(ctx, script, method='run', peer=None, params=(), query=False, value=0):
    scores.CTX[0] = script
    peer = peer or Peer(ctx)
    f = peer.invoke(sim.package(scores.Scripted), query, raw_addr('hx', 2), raw_addr('cx', 1), value, 10 ** 6, method,
                    list(params), info(ctx, {}))
    ctx.check(f.escaped is None and peer.errors == [] and f.result is not None, 'the request is answered')
    return f


def clamp(ctx, code):
    return ctx.ite(code < 0, 32, ctx.ite(code > 967, 999, code + 32))


@unit(cases=[dict(how=h, n=n) for h in ('revert', 'score', 'custom', 'own', 'method') for n in (0, 1, 3)] +
      [dict(how='text', n=1)],
      covers=['in range', 'below', 'above'], bounds='every code of 300 bits and every message of up to 3 characters, by '
      'revert and by exceptions of the contract')
def codes(ctx, how, n):
    code = ctx.int('code', -(1 << 300), 1 << 300)
    text = ctx.str('text', n)

    def script(score, _):
        if how == 'revert':
            revert(text, code)
        elif how == 'method':
            score.revert(text, code)
        elif how == 'text':
            revert(text, '12')
        elif how == 'score':
            raise IconScoreException(text, code)
        elif how == 'custom':
            raise Custom(text, code)
        else:
            raise Own(text, code)
    f = go(ctx, script)
    if f.result is None:
        return
    if how == 'text':
        ctx.check(f.result[0] == 44 and ctx.eq(f.result[2], text), 'a code given as a text')
        for c in ('in range', 'below', 'above'):
            ctx.cover(c)
        return
    ctx.check(f.result[0] == clamp(ctx, code), 'the status is 32 plus the code, within 32 to 999')
    ctx.check(ctx.eq(f.result[2], text), 'the message is delivered')
    if code < 0:
        ctx.cover('below')
    elif code > 967:
        ctx.cover('above')
    else:
        ctx.cover('in range')


@unit(cases=[dict(via=v) for v in ('call', 'interface', 'transfer')], covers=['score', 'system', 'ok'],
      bounds='every status from 0 to 2000 that a callee can report, with every message of 2 characters '
             'and every number of steps it can have used; passed on or inspected by the caller')
def through(ctx, via):
    status = ctx.int('status', 0, 2000)
    text = ctx.str('text', 2)
    catch = ctx.flag('catch')
    got = []
    spent = ctx.int('spent', 0, 10 ** 6)
    peer = Peer(ctx, on_call=lambda p, f, to, value, limit, m, params: [status, spent, text])

    def call(score):
        if via == 'call':
            return score.call(addr('cx', 9), 'm', {})
        if via == 'interface':
            return score.create_interface_score(addr('cx', 9), scores.Callee).bar()
        return score.icx.transfer(addr('hx', 9), 4)

    def script(score, _):
        if not catch:
            return call(score)
        try:
            return call(score)
        except IconServiceBaseException as e:
            got.append([e.code, e.message, isinstance(e, IconScoreException)])
            raise
    f = go(ctx, script, peer=peer)
    if f.result is None:
        return
    if status == 0:
        ctx.cover('ok')
        ctx.check(f.result[0] == 0 and got == [], 'success stays success')
        if via != 'transfer':
            ctx.check(ctx.eq(f.result[2], text), 'with its value')
        return
    ctx.check(f.result[0] == status, 'the status of the callee is passed on')
    ctx.check(ctx.eq(f.result[2], text), 'with its message')
    ctx.check(len(got) == (1 if catch else 0), 'a failure is an exception')
    if got:
        user = ctx.And(status >= 32, status <= 999)
        ctx.check(got[0][0] == status and ctx.eq(got[0][1], text), 'with the code and the message')
        ctx.check(user if got[0][2] else ctx.Not(user), 'a user error exactly for the user codes')
    ctx.cover('score' if 32 <= status <= 999 else 'system')


@unit(cases=[dict(via=v) for v in ('send', 'None', 'fallback')], covers=['sent', 'not sent'],
      bounds='every status from 0 to 2000 of a plain transfer, using every number of steps up to all of them')
def sending(ctx, via):
    status = ctx.int('status', 0, 2000)
    amount = ctx.int('amount', 0, 1 << 256)
    spent = ctx.int('spent', 0, 10 ** 6)
    got = []
    peer = Peer(ctx, on_call=lambda p, f, to, value, limit, m, params: [status, spent, None if status == 0 else 'no'])

    def script(score, _):
        if via == 'send':
            got.append(score.icx.send(addr('hx', 9), amount))
        else:
            try:
                score.call(addr('hx', 9), None if via == 'None' else 'fallback', {}, amount)
                got.append(True)
            except BaseException:
                got.append(False)
        return 6
    f = go(ctx, script, peer=peer)
    if f.result is None:
        return
    ctx.check(f.result[0] == 0 and f.result[2] == 6, 'a caught failure does not fail the caller')
    ctx.check(len(got) == 1 and len(f.calls) == 1, 'one transfer')
    ctx.check((status == 0) if got[0] else (status != 0), 'success is reported exactly when it succeeded')
    c = f.calls[0]
    ctx.check(ctx.And(ctx.eq(c[0], raw_addr('hx', 9)), c[1] == amount) and c[3] == '' and c[4] == [],
              'a transfer to the receiver without a method')
    ctx.cover('sent' if got[0] else 'not sent')


KINDS = {'missing': 3, 'not payable': 4, 'index': 6, 'index type': 6, 'nested set': 8, 'readonly': 9, 'event arg': 5,
         'icx': 6, 'fee': 5, 'params': 6, 'revert arg': 6, 'zero': 1, 'attribute': 1, 'value type': 6, 'no contract': 2,
         'none interface': 5, 'address text': 6, 'exception': 1, 'python assertion': 1}


@unit(cases=[dict(kind=k) for k in KINDS], covers=['failed'], bounds='one failure of each kind that the executor itself '
      'detects, or plain Python errors')
def own(ctx, kind):
    peer = Peer(ctx, on_call=lambda p, f, to, value, limit, m, params: [0, 0, None])
    n = ctx.int('n', 1, 1000)

    def script(score, _):
        if kind == 'index':
            return score.arr[n]
        if kind == 'index type':
            score.dic[1.5]
        if kind == 'nested set':
            DictDB('n', score.database, value_type=bytes, depth=2)['a'] = b'x'
        if kind == 'readonly':
            score.var.set(b'x')
        if kind == 'event arg':
            score.Ev('text', b'')
        if kind == 'icx':
            score.create_interface_score(addr('cx', 9), scores.Callee).icx(-n)
        if kind == 'fee':
            score.set_fee_sharing_proportion(100 + n)
        if kind == 'revert arg':
            revert('m', 'text')
        if kind == 'zero':
            return n // 0
        if kind == 'attribute':
            return score.nothing
        if kind == 'value type':
            score.dic[1] = 1.5
        if kind == 'none interface':
            score.create_interface_score(None, scores.Callee).bar()
        if kind == 'address text':
            Address.from_string('hx12')
        if kind == 'exception':
            raise Exception('plain')
        if kind == 'python assertion':
            assert n < 0
        return 0
    if kind == 'no contract':
        scores.CTX[0] = script
        f = peer.invoke('/nonexistent/contract', False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 6, 'run', [],
                        info(ctx, {}))
    elif kind == 'params':
        scores.CTX[0] = script
        f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 6, 'echo',
                        {'a': b'hx'} if ctx.flag('dict') else 'text', info(ctx, {}))
    else:
        f = go(ctx, script, 'absent' if kind == 'missing' else 'view' if kind == 'readonly' else 'run', peer,
               value=n if kind == 'not payable' else 0)
    ctx.check(f.escaped is None and f.result is not None, 'the request is answered')
    if f.result is None:
        return
    want = KINDS[kind]
    if kind == 'params':
        ctx.check(f.result[0] in (1, 6), 'parameters that cannot be used are refused')
    elif kind == 'address text':
        ctx.check(f.result[0] in (1, 6), 'a malformed address is refused')
    else:
        ctx.check(f.result[0] == want, 'the failure has its own status')
    ctx.check(isinstance(f.result[2], str), 'and a message')
    ctx.cover('failed')
