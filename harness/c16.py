"""The published interface is the declared one, and the executor behaves as it says."""
import hashlib
import json
import os
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, addr, info

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01']}

READONLY, EXTERNAL, PAYABLE, ISOLATED = 1, 2, 4, 8
HEAD = '''from iconservice import *
from typing import List, Optional, Union, TypedDict
from harness.scores import CTX


class Pair(TypedDict):
    x: int
    y: str


class Deep(TypedDict):
    p: Pair
    q: List[bytes]


class Contract(IconScoreBase):
    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self) -> None:
        pass

    def on_update(self) -> None:
        pass

'''
KEEP = '''    @external
    def zz_keep(self):
        pass

'''
PAIR = [[b'x', 1, None], [b'y', 2, None]]
TYPES = {'int': (1, None), 'str': (2, None), 'bytes': (3, None), 'bool': (4, None), 'Address': (5, None), '': (2, None),
         'List[int]': (0x11, None), 'List[List[Address]]': (0x25, None), 'Pair': (8, PAIR), 'List[Pair]': (0x18, PAIR),
         'Deep': (8, [[b'p', 8, None, PAIR], [b'q', 0x13, None]]), 'Optional[bool]': (4, None), 'Union[int, None]': (1, None)}
BASE = ['int', 'str', 'bytes', 'bool', 'Address', '']
DEFAULTS = {'int': ['0', '-129', '1 << 70'], 'str': ["''", "'é'"], 'bytes': ["b''", "b'\\xff'"], 'bool': ['True', 'False'],
            'Address': ["Address.from_string('cx' + '12' * 20)"], '': ["'t'"]}
ENC = {'0': b'\x00', '-129': b'\xff\x7f', '1 << 70': b'\x40' + bytes(8), "''": b'', "'é'": 'é'.encode(), "b''": b'',
       "b'\\xff'": b'\xff', 'True': b'\x01', 'False': b'\x00', "'t'": b't',
       "Address.from_string('cx' + '12' * 20)": b'\x01' + b'\x12' * 20, 'None': None}
OUT = {'': [], 'None': [], 'int': [1], 'str': [2], 'bytes': [3], 'bool': [4], 'Address': [5], 'list': [6], 'dict': [7],
       'List[int]': [6], 'Pair': [7]}


def norm(v):
    if isinstance(v, str):
        return v.encode('utf-8')
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def deploy(body, name='Contract', module='main'):
    src = HEAD + body
    path = os.path.join(sim.ROOT, 'g' + hashlib.sha256(repr((src, name, module)).encode()).hexdigest()[:24])
    if not os.path.exists(os.path.join(path, 'package.json')):
        os.makedirs(path, exist_ok=True)
        for n, text in (('__init__.py', ''), ('main.py', src),
                        ('package.json', json.dumps({'main_module': module, 'main_score': name}))):
            tmp = os.path.join(path, n + '.%d' % os.getpid())
            with open(tmp, 'w') as f:
                f.write(text)
            os.rename(tmp, os.path.join(path, n))
    return path


def api(ctx, body):
    path = deploy(body)
    peer = Peer(ctx)
    r = peer.get_api(path)
    ctx.check(r is not None and len(peer.apis) == 1 and peer.errors == [], 'the question is answered once')
    return path, (r if r is not None else [1, None])


KEEPAPI = [0, b'zz_keep', EXTERNAL, 0, [], []]
INSTALL = [[0, b'on_install', 0, 0, [], []], [0, b'on_update', 0, 0, [], []]]


def entries(ctx, r):
    """the published entries beside those of the frame"""
    ctx.check(r[0] == 0, 'the interface is published')
    if r[0] != 0:
        return []
    es = [norm(e) for e in r[1]]
    for e in INSTALL:
        ctx.check(e in es, 'installation methods are listed')
    return [e for e in es if e not in INSTALL]


def params(ctx, n, kinds, none=True):
    """(source, expected inputs, mandatory count)"""
    src, want, mandatory, opt = [], [], 0, False
    for i in range(n):
        t = ctx.choice('type%d' % i, kinds)
        ann = ('p%d: %s' % (i, t)) if t else 'p%d' % i
        num, fields = TYPES[t]
        d = None
        options = ['no'] if not opt else []
        options += ['default'] if t in DEFAULTS else []
        options += ['None'] if none else []
        has = ctx.choice('default%d' % i, options)
        enc = None
        if has == 'default':
            d = ctx.choice('value%d' % i, DEFAULTS[t])
            enc = ENC[d]
        elif has == 'None':
            d = 'None'
        if d is None:
            mandatory += 1
        else:
            opt = True
            ann += ' = ' + d
        src.append(ann)
        want.append([b'p%d' % i, num, enc] + ([fields] if fields else []))
    return ', '.join(['self'] + src), want, mandatory


def external(flags):
    """decorators of a method with these flags, in one order or the other"""
    d = []
    if flags & PAYABLE:
        d.append('    @payable\n')
    if flags & EXTERNAL:
        d.append('    @external(readonly=True)\n' if flags & READONLY else '    @external\n')
    return d


@unit(cases=[dict(n=0, kinds=BASE), dict(n=1, kinds=list(TYPES)), dict(n=2, kinds=['int', 'Address', '']),
             dict(n=2, kinds=['bytes', 'bool', 'Pair'])],
      thorough_cases=[dict(n=2, kinds=list(TYPES)), dict(n=3, kinds=['int', 'str', 'bool', 'bytes'])],
      covers=['plain', 'payable', 'readonly', 'optional', 'struct'],
      bounds='methods with up to 2 parameters (3 in the thorough tier) of all 13 forms of types with or without defaults, '
             'all flags in both orders, all forms of results')
def functions(ctx, n, kinds):
    flags = ctx.choice('flags', [EXTERNAL, EXTERNAL | PAYABLE, EXTERNAL | READONLY])
    decorators = external(flags)
    if ctx.flag('reversed') if flags & PAYABLE else False:
        decorators.reverse()
    src, want, mandatory = params(ctx, n, kinds)
    out = ctx.choice('out', sorted(OUT)) if n == 0 else ctx.choice('out', ['', 'int'])
    body = ''.join(decorators) + '    def m(%s)%s:\n        return CTX[0](self, "m")\n\n' % (src, ' -> ' + out if out else '')
    path, r = api(ctx, body)
    es = entries(ctx, r)
    outs = OUT[out] if flags & READONLY else []
    ctx.check(es == [[0, b'm', flags, mandatory, want, outs]], 'the method is published as it is declared')
    ctx.cover('payable' if flags & PAYABLE else 'readonly' if flags & READONLY else 'plain')
    if mandatory < n:
        ctx.cover('optional')
    if 'Pair' in kinds:
        ctx.cover('struct')


@unit(cases=[dict(n=n) for n in (0, 1, 2)], thorough_cases=[dict(n=3), dict(n=4)], covers=['event', 'refused'],
      bounds='events of up to 2 parameters (4 in the thorough tier) of the base types, every number of indexed ones')
def events(ctx, n):
    kinds = ['int', 'Address', 'bytes'] if n > 1 else BASE[:5]
    indexed = ctx.choice('indexed', list(range(n + 2)))
    src, want, mandatory = params(ctx, n, kinds, none=False)
    deco = '    @eventlog\n' if indexed == 0 and ctx.flag('bare') else '    @eventlog(indexed=%d)\n' % indexed
    body = KEEP + deco + '    def Happened(%s) -> None:\n        pass\n\n' % src
    path, r = api(ctx, body)
    if indexed > n or indexed > 3:
        ctx.check(r[0] != 0 and r[1] is None, 'more indexed parameters than there are, or than allowed, are refused')
        ctx.cover('refused')
        return
    want = [[w[0], w[1], None] for w in want]
    es = entries(ctx, r)
    ctx.check(sorted(es, key=lambda e: e[1]) == [[2, b'Happened', 0, indexed, want, []], KEEPAPI],
              'the event is published as it is declared')
    ctx.cover('event')


BAD = {'dict parameter': '    @external\n    def m(self, a: dict):\n        pass\n',
       'float parameter': '    @external\n    def m(self, a: float):\n        pass\n',
       'default mismatch': '    @external\n    def m(self, a: int = "x"):\n        pass\n',
       'default bool': '    @external\n    def m(self, a: int = True):\n        pass\n',
       'star': '    @external\n    def m(self, *a):\n        pass\n',
       'starstar': '    @external\n    def m(self, **a):\n        pass\n',
       'keyword only': '    @external\n    def m(self, *, a: int):\n        pass\n',
       'readonly payable': '    @payable\n    @external(readonly=True)\n    def m(self):\n        pass\n',
       'twice external': '    @external\n    @external\n    def m(self):\n        pass\n',
       'twice payable': '    @payable\n    @payable\n    @external\n    def m(self):\n        pass\n',
       'external fallback': '    @external\n    def fallback(self):\n        pass\n',
       'fallback parameter': '    @payable\n    def fallback(self, a: int):\n        pass\n',
       'fallback result': '    @payable\n    def fallback(self) -> int:\n        pass\n',
       'event external': '    @external\n    @eventlog\n    def m(self):\n        pass\n',
       'event payable': '    @payable\n    @eventlog\n    def m(self):\n        pass\n',
       'event hint': '    @eventlog\n    def m(self, a):\n        pass\n',
       'event list': '    @eventlog\n    def m(self, a: List[int]):\n        pass\n',
       'event self': '    @eventlog\n    def m():\n        pass\n',
       'isolated': '    @isolated\n    def m(self):\n        pass\n',
       'install flags': '    @external\n    def on_install(self):\n        pass\n',
       'union': '    @external\n    def m(self, a: Union[int, str]):\n        pass\n',
       'list default': '    @external\n    def m(self, a: List[int] = [1]):\n        pass\n',
       'hint text': '    @external\n    def m(self, a: "int"):\n        pass\n',
       'syntax': '    def (self)\n', 'module error': '\n\nraise ValueError("x")\n',
       'module exit': '\n\nraise SystemExit(1)\n',
       'module hostile': '\n\nclass E(Exception):\n    def __str__(self):\n        raise SystemExit(2)\n\n\nraise E()\n'}


@unit(cases=[dict()], covers=['refused'], bounds='27 kinds of declarations that are not allowed; the executor serves a '
      'request afterwards')
def refused(ctx):
    kind = ctx.choice('kind', sorted(BAD))
    path = deploy(KEEP + BAD[kind])
    peer = Peer(ctx)
    r = peer.get_api(path)
    ctx.check(r is not None and peer.errors == [] and len(peer.apis) == 1, 'the question is answered once')
    if r is None:
        return
    ctx.check(r[0] != 0 and r[1] is None, 'such a contract has no interface')
    ctx.cover('refused')
    good = peer.get_api(deploy(KEEP))
    ctx.check(good is not None and good[0] == 0, 'and the next question is answered')


@unit(cases=[dict()], covers=['nothing'], bounds='a contract without external methods, one without its main module, a '
      'missing one')
def absent(ctx):
    kind = ctx.choice('kind', ['no external', 'no class', 'no package', 'relative'])
    peer = Peer(ctx)
    if kind == 'no external':
        path = deploy('    def m(self):\n        pass\n')
    elif kind == 'no class':
        path = deploy(KEEP, 'Missing')
    elif kind == 'relative':
        path = deploy(KEEP, module='.main')
    else:
        path = os.path.join(sim.ROOT, 'nowhere')
    r = peer.get_api(path)
    ctx.check(r is not None and r[0] != 0 and r[1] is None, 'no interface')
    ctx.cover('nothing')


SHAPES = {'plain': (EXTERNAL, '    @external\n'), 'payable': (EXTERNAL | PAYABLE, '    @payable\n    @external\n'),
          'payable2': (EXTERNAL | PAYABLE, '    @external\n    @payable\n'),
          'view': (EXTERNAL | READONLY, '    @external(readonly=True)\n'), 'payable only': (None, '    @payable\n'),
          'bare': (None, ''), 'fallback': (PAYABLE, '    @payable\n'), 'bare fallback': (None, ''),
          'inherited': (EXTERNAL, ''), 'overridden': (None, '')}


@unit(cases=[dict(shape=s) for s in SHAPES], covers=['listed', 'not listed', 'writes', 'refuses writes', 'coins'],
      bounds='ten forms of methods; every amount of 128 bits; a method that writes or not')
def agreement(ctx, shape):
    """what the interface says about a method is what the executor does"""
    flags, deco = SHAPES[shape]
    name = 'fallback' if 'fallback' in shape else 'm'
    method = deco + '    def %s(self):\n        return CTX[0](self, "%s")\n\n' % (name, name)
    if shape in ('inherited', 'overridden'):
        body = KEEP + '    @external\n    def m(self):\n        return CTX[0](self, "m")\n\n\nclass Heir(Contract):\n' + \
            '    def __init__(self, db):\n        super().__init__(db)\n\n' + (method if shape == 'overridden' else '')
        path = deploy(body, 'Heir')
    else:
        path = deploy(KEEP + method)
    value = ctx.int('value', 0, 1 << 128)
    writes = ctx.flag('writes')
    peer = Peer(ctx)
    r = peer.get_api(path)
    ctx.check(r is not None and r[0] == 0, 'the interface is published')
    if r is None or r[0] != 0:
        return
    mine = [e for e in (norm(x) for x in r[1]) if e[1] == name.encode()]
    ctx.check(len(mine) == (0 if flags is None else 1), 'the method is listed, or not, as it is declared')
    if mine:
        ctx.check(mine[0][:3] == [1 if name == 'fallback' else 0, name.encode(), flags], 'with its kind and its flags')
    ctx.cover('listed' if mine else 'not listed')
    ran = []

    def script(score, n):
        from iconservice import VarDB
        ran.append(n)
        if writes:
            VarDB('x', score.db, value_type=int).set(1)
    scores.CTX[0] = script
    f = peer.invoke(path, False, raw_addr('hx', 2), raw_addr('cx', 1), value, 10 ** 6, name, [], info(ctx, {}))
    ctx.check(f.result is not None and peer.errors == [], 'the request is answered')
    if f.result is None:
        return
    if not mine:
        ctx.check(ran == [] and f.result[0] != 0, 'what is not listed cannot be called')
        return
    if value > 0 and not flags & PAYABLE:
        ctx.check(ran == [] and f.result[0] == 4, 'only what is listed as payable takes coins')
        ctx.cover('coins')
        return
    ctx.check(ran == [name], 'what is listed can be called')
    if writes and flags & READONLY:
        ctx.check(f.result[0] == 9 and f.sets == [], 'what is listed as read-only cannot write')
        ctx.cover('refuses writes')
    else:
        ctx.check(f.result[0] == 0 and len(f.sets) == int(writes), 'what is not can')
        if writes:
            ctx.cover('writes')
