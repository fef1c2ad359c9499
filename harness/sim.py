"""A service manager simulator: the other end of the executor's connection.

It speaks the message protocol, executes GETVALUE/SETVALUE/... against its own store and
records every message.  In symbolic runs messages are objects (symex.msgmodel); in concrete
runs they are real msgpack bytes.
"""
import atexit
import json
import os
import shutil
import tempfile

from symex import env
from pyexec.ipc import proxy as P
from pyexec import utils as U
from pyexec.base.address import Address, AddressPrefix
from pyexec.pyexec import PyExecEngine

VERSION, INVOKE, RESULT, GETVALUE, SETVALUE, CALL, EVENT, GETINFO, GETBALANCE, GETAPI, LOG, CLOSE = range(12)
SETFEEPCT, CONTAINS = 15, 16
NIL, DICT, LIST, BYTES, STRING, BOOL, ADDRESS, INT = 0, 1, 2, 3, 4, 5, 10, 11
READ_ONLY, TRACE = 1, 2


class Deadlock(BaseException):
    pass


def lazy_ints(ctx):
    """integers cross the wire under the contract that C01 establishes"""
    if ctx.symbolic:
        from symex import models, values
        for f in (P.int_to_bytes, U.int_to_bytes):
            models.STUBS[f] = values.lazy_int_to_bytes
        for f in (P.bytes_to_int, U.bytes_to_int):
            models.STUBS[f] = values.lazy_bytes_to_int


def enc_int(ctx, v):
    if ctx.symbolic:
        from symex import values
        return values.lazy_int_to_bytes(v)
    v = int(v)
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return v.to_bytes(n, 'big', signed=True)


def dec_int(ctx, b):
    if ctx.symbolic:
        from symex import values
        return values.lazy_bytes_to_int(b)
    return int.from_bytes(b, 'big', signed=True)


def addr(prefix, n):
    return Address(AddressPrefix.CONTRACT if prefix == 'cx' else AddressPrefix.EOA, bytes([n]) * 20)


def raw_addr(prefix, n):
    return (b'\x01' if prefix == 'cx' else b'\x00') + bytes([n]) * 20


def typed(ctx, v):
    """tagged value, written independently of the implementation"""
    if v is None:
        return [NIL, None]
    if isinstance(v, dict):
        return [DICT, {k.encode('utf-8'): typed(ctx, x) for k, x in v.items()}]
    if isinstance(v, (list, tuple)):
        return [LIST, [typed(ctx, x) for x in v]]
    if isinstance(v, bytes):
        return [BYTES, v]
    if isinstance(v, str):
        return [STRING, v.encode('utf-8')]
    if isinstance(v, bool):
        return [BOOL, b'\x01' if v else b'\x00']
    if isinstance(v, int):
        return [INT, enc_int(ctx, v)]
    if isinstance(v, Address):
        return [ADDRESS, v.prefix.value.to_bytes(1, 'big') + v.body]
    raise TypeError(type(v))


def untyped(ctx, t):
    tag, v = t[0], t[1]
    if tag == NIL:
        return None
    if tag == DICT:
        return {k.decode('utf-8'): untyped(ctx, x) for k, x in v.items()}
    if tag == LIST:
        return [untyped(ctx, x) for x in v]
    if tag == BYTES:
        return v
    if tag == STRING:
        return v.decode('utf-8')
    if tag == BOOL:
        return v == b'\x01'
    if tag == INT:
        return dec_int(ctx, v)
    if tag == ADDRESS:
        return ['addr', v]
    raise ValueError('tag')


# ---------------------------------------------------------------- SCORE packages
ROOT = tempfile.mkdtemp(prefix='sxscore')
_owner = os.getpid()


def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(ROOT, ignore_errors=True)


atexit.register(_cleanup)


def package(cls):
    """a deployed package whose main module re-exports a harness class; returns its code path"""
    name = 'p_%s_%s' % (cls.__module__.replace('.', '_'), cls.__name__)
    path = os.path.join(ROOT, name)
    if not os.path.exists(os.path.join(path, 'package.json')):
        os.makedirs(path, exist_ok=True)
        open(os.path.join(path, '__init__.py'), 'w').close()
        with open(os.path.join(path, 'main.py'), 'w') as f:
            f.write('from %s import %s\n' % (cls.__module__, cls.__name__))
        with open(os.path.join(path, 'package.json'), 'w') as f:
            json.dump({'version': '1', 'main_module': 'main', 'main_score': cls.__name__}, f)
    return path


class Frame:
    def __init__(self, readonly, limit, to):
        self.readonly, self.limit, self.to = readonly, limit, to
        self.sets, self.events, self.fees, self.calls, self.gets = [], [], [], [], []
        self.result = None
        self.then = None
        self.saved = None


class FakeSocket:
    def __init__(self, peer):
        self.peer = peer
        self.buf = b''
        self.unp = None

    def connect(self, a):
        pass

    def close(self):
        pass

    def settimeout(self, t):
        pass

    def sendall(self, b):
        if self.peer.ctx.symbolic:
            self.peer.feed(b.obj)
            return
        import msgpack
        if self.unp is None:
            self.unp = msgpack.Unpacker(raw=True, max_buffer_size=2 ** 31)
        self.unp.feed(bytes(b))
        for m in self.unp:
            self.peer.feed(m)

    def send(self, b):
        self.sendall(b)
        return 1 if self.peer.ctx.symbolic else len(b)

    def recv(self, n=None, flags=0):
        if self.peer.ctx.symbolic:
            return env.Packet(self.peer.take())
        import msgpack
        if not self.buf:
            self.buf = msgpack.packb(self.peer.take(), use_bin_type=False)
        n = 1024 if n is None else n
        r, self.buf = self.buf[:n], self.buf[n:]
        return r


class Peer:
    """on_call(peer, frame, to, value, limit, method, params) -> [status, step_used, result] or None when the
    hook itself queued messages (nested invoke)."""

    def __init__(self, ctx, on_call=None, verify=False):
        self.ctx = ctx
        self.out = []
        self.log = []               # every (msg, data) except LOG
        self.logs = []
        self.store = {}
        self.frames = []
        self.done = []              # finished frames, in order of completion
        self.errors = []
        self.on_call = on_call
        self.balance = lambda a: 0
        self.on_contains = None
        self.on_api = None          # on_api(peer, answer) goes on after an interface was reported
        self.results = 0
        self.raw_result = None
        self.apis = []
        self.versions = []
        lazy_ints(ctx)
        env.SOCK = lambda *a, **kw: FakeSocket(self)
        self.proxy = P.ServiceManagerProxy()
        self.engine = PyExecEngine(self.proxy, verify)
        self.proxy.connect('/nonexistent')

    # ------------------------------------------------------------ driving
    def send(self, msg, data):
        self.out.append([msg, data])

    def take(self):
        if not self.out:
            self.errors.append('the executor waits for a message that will never come')
            raise Deadlock()
        return self.out.pop(0)

    def queue_invoke(self, code, readonly, _from, to, value, limit, method, params, info, then=None, flags=0):
        f = Frame(readonly, limit, to)
        f.then = then
        f.saved = dict(self.store)
        self.frames.append(f)
        ctx = self.ctx
        self.send(INVOKE, [code.encode(), (READ_ONLY if readonly else 0) | flags, _from, to, enc_int(ctx, value),
                           enc_int(ctx, limit), method.encode() if isinstance(method, str) else method,
                           typed(ctx, params) if not (isinstance(params, list) and params[:1] == ['raw']) else params[1],
                           typed(ctx, info)])
        return f

    def run(self):
        """serve the executor until it has answered the outermost request; returns an escaped exception"""
        try:
            self.proxy.loop()
        except Deadlock:
            return 'deadlock'
        except Exception as e:
            return e
        except BaseException as e:
            if type(e).__module__.startswith('symex'):
                raise
            return e
        return None

    def invoke(self, *a, **kw):
        f = self.queue_invoke(*a, **kw)
        f.escaped = self.run()
        return f

    def get_api(self, code):
        self.send(GETAPI, code.encode())
        self.run()
        return self.apis[-1] if self.apis else None

    # ------------------------------------------------------------ serving
    def feed(self, m):
        msg, data = m[0], m[1]
        if msg == LOG:
            self.logs.append(data)
            return
        self.log.append((msg, data))
        f = self.frames[-1] if self.frames else None
        if msg == VERSION:
            self.versions.append(data)
        elif msg == GETVALUE:
            v = self.store.get(data)
            if f is not None:
                f.gets.append(data)
            self.send(GETVALUE, [v is not None, v])
        elif msg == SETVALUE:
            self.set_value(f, data)
        elif msg == CONTAINS:
            self.send(CONTAINS, self.on_contains(self, data))
        elif msg == GETBALANCE:
            self.send(GETBALANCE, enc_int(self.ctx, self.balance(data)))
        elif msg == GETINFO:
            self.send(GETINFO, typed(self.ctx, {}))
        elif msg == EVENT:
            if f is None or f.readonly:
                self.errors.append('event from a read-only frame')
            else:
                f.events.append(data)
        elif msg == SETFEEPCT:
            if f is None or f.readonly:
                self.errors.append('fee sharing from a read-only frame')
            else:
                f.fees.append(data)
        elif msg == CALL:
            to, value, limit, typ, dobj = data
            d = untyped(self.ctx, dobj)
            value, limit = dec_int(self.ctx, value), dec_int(self.ctx, limit)
            f.calls.append([to, value, limit, d['method'], d['params']])
            r = self.on_call(self, f, to, value, limit, d['method'], d['params'])
            if r is not None:
                self.reply_call(r)
        elif msg == RESULT:
            self.result(data)
        elif msg == GETAPI:
            self.apis.append(data)
            if self.on_api is not None:
                self.on_api(self, data)
            elif not self.frames:
                self.send(CLOSE, None)
        else:
            self.errors.append('unexpected message %s' % msg)

    def reply_call(self, r):
        self.send(RESULT, [r[0], enc_int(self.ctx, r[1]), typed(self.ctx, r[2])])

    def set_value(self, f, data):
        key, flag, value = data
        if f is None or f.readonly:
            self.errors.append('write from a read-only frame')
            return
        if (value is None) != bool(flag & 1):
            self.errors.append('delete flag does not agree with the value')
        old = self.store.get(key)
        f.sets.append((key, value, old, flag))
        if value is None or (flag & 1):
            self.store.pop(key, None)
        else:
            self.store[key] = value
        if flag & 2:
            self.send(SETVALUE, [old is not None, len(old) if old is not None else 0])

    def result(self, data):
        self.results += 1
        if not self.frames:
            self.errors.append('RESULT without a pending INVOKE')
            return
        if self.raw_result is not None:
            self.raw_result.append(data)
        f = self.frames.pop()
        f.result = (data[0], dec_int(self.ctx, data[1]), untyped(self.ctx, data[2]))
        if data[0] != 0:
            self.store = f.saved
        self.done.append(f)
        if f.then is not None:
            f.then(self, f)
        elif not self.frames:
            self.send(CLOSE, None)


def info(ctx=None, costs=None, revision=0, owner=None, **kw):
    d = {'B.timestamp': 1600000000000000, 'B.height': 10, 'T.hash': b'\x11' * 32, 'T.index': 0,
         'T.from': addr('hx', 2), 'T.timestamp': 1600000000000000, 'T.nonce': 0, 'Revision': revision,
         'StepCosts': costs if costs is not None else {}, 'C.owner': owner if owner is not None else addr('hx', 3)}
    d.update(kw)
    return d
