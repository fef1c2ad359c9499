"""Only external methods can be called from outside."""
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, addr, info

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01',
                        'the peer names the fallback "fallback" and installs with on_install and on_update']}

NOT_FOUND = 3
EXT = {'Scripted': ['run', 'view', 'pay', 'echo', 'vecho', 'typed', 'two'],
       'Plain': ['run'],
       'Heir': ['run', 'view', 'pay', 'echo', 'vecho', 'typed', 'two', 'sub', 'subpay']}
ENTRY = ['on_install', 'on_update', 'fallback']
ARGS = {'echo': [1], 'vecho': [1], 'two': [1]}
MORE = ['', ' run', 'run ', 'Run', 'RUN', 'run()', 'hidden', '_private', 'helper', 'odd', '.run', 'run\x00', 'on_installed',
        '_on_install', 'ev', '__call__', 'fallback ', 'Scripted', '0', 'sub', 'subpay']


def start(ctx, score, method, params, query=False):
    ran = []

    def script(s, name, *args):
        ran.append(name)
        return 3
    scores.CTX[0] = script
    peer = Peer(ctx)
    f = peer.invoke(sim.package(getattr(scores, score)), query, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 6,
                    method, params, info(ctx, {}))
    ctx.check(f.result is not None and f.escaped is None and peer.errors == [], 'the request is answered')
    ctx.check(f.sets == [] and f.events == [] and f.calls == [], 'without any effect of its own')
    return f, ran


@unit(cases=[dict(score=s, n=n) for s in EXT for n in (0, 1, 2, 3, 4)],
      thorough_cases=[dict(score=s, n=n) for s in EXT for n in (5, 6, 7, 8, 9, 10, 16)],
      covers=['external', 'refused'], enum_limit=400,
      bounds='every method name of up to 4 characters (16 in the thorough tier), of three contracts')
def any_name(ctx, score, n):
    name = ctx.str('name', n)
    f, ran = start(ctx, score, name, [])
    if f.result is None:
        return
    known = [m for m in EXT[score] + ENTRY if name == m]
    ctx.check(len(ran) <= 1, 'at most one method is run')
    if ran:
        ctx.check(known == ran and ran[0] in EXT[score] + ENTRY, 'and that is the external method of this name')
        ctx.check(f.result[0] == 0, 'which succeeds')
        ctx.cover('external')
    elif known and known[0] in ARGS:
        ctx.check(f.result[0] != 0, 'missing arguments')
    elif known == ['fallback']:
        ctx.check(score == 'Plain' and f.result[0] == NOT_FOUND, 'a fallback that is not payable')
    else:
        ctx.check(known == [], 'every external method runs')
        ctx.check(f.result[0] == NOT_FOUND, 'any other name is not found')
        ctx.check(f.result[1] == 0, 'and costs nothing')
        ctx.cover('refused')


@unit(cases=[dict(score=s, named=n) for s in EXT for n in (False, True)], covers=['external', 'refused'],
      bounds='every attribute name of the contract objects, inherited ones, event logs and dunder names among them, and '
             'some misspelt ones; positional or named parameters; request or query')
def attributes(ctx, score, named):
    cls = getattr(scores, score)
    names = sorted(set(dir(cls)) | set(MORE) | {'_IconScoreBase__call', '_IconScoreBase__db', 'database', 'var', 'num'})
    name = ctx.choice('name', names)
    args = ARGS.get(name, [])
    if named:
        params = {{'echo': 'a', 'vecho': 'a', 'two': 'p'}[name]: b'0x1'} if args else {}
    else:
        params = args
    f, ran = start(ctx, score, name, params, ctx.flag('query'))
    if f.result is None:
        return
    ok = name in EXT[score] + ENTRY and not (name == 'fallback' and score == 'Plain')
    ctx.check(ran == ([name] if ok else []), 'the method is run if it is external, and nothing otherwise')
    ctx.check((f.result[0] == 0) == ok, 'and succeeds in that case only')
    if ok:
        ctx.cover('external')
    else:
        ctx.cover('refused')
        if not named or hasattr(cls, name):
            ctx.check(f.result[0] in (NOT_FOUND, 1), 'it is reported as not found')
        if not named:
            ctx.check(f.result[0] == NOT_FOUND, 'it is reported as not found')
