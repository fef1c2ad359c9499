"""Process set-up shared by the symbolic runner and the concrete replayer."""
import copy
import os
import sys
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYEE = os.path.join(REPO, 'pyee')
Z3DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup_common():
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(6000)
    for p in (PYEE, VERIF):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, PYEE)


SOCK = None                             # installed by the simulator: replaces socket.socket


def patch_socket():
    import socket
    orig = socket.socket

    def factory(*a, **kw):
        return SOCK(*a, **kw) if SOCK is not None else orig(*a, **kw)
    socket.socket = factory


def ignore_caches():
    """the code under test is always compiled from its source, never taken from a bytecode cache which may be stale"""
    from importlib.machinery import SourceFileLoader
    orig = SourceFileLoader.path_stats

    def path_stats(self, path):
        if str(path).startswith(PYEE + os.sep):
            raise OSError('no cache')
        return orig(self, path)
    SourceFileLoader.path_stats = path_stats


def setup_concrete():
    setup_common()
    ignore_caches()
    patch_socket()


class Packet:
    """what the fake msgpack writes: one message, already normalised"""
    def __init__(self, obj):
        self.obj = obj


def setup_symbolic():
    setup_common()
    ignore_caches()
    patch_socket()
    if Z3DIR not in sys.path:
        sys.path.append(Z3DIR)          # last: only z3 is taken from there
    import z3
    z3.set_param('memory_max_size', 6000)
    from . import models, rewrite
    from . import core
    core.set_engine(core.Engine())
    models.install()
    fake = types.ModuleType('msgpack')
    from . import msgmodel
    fake.dump = msgmodel.dump
    fake.pack = msgmodel.dump
    fake.Unpacker = msgmodel.Unpacker
    fake.Packer = msgmodel.Packer
    fake.packb = msgmodel.packb
    fake.unpackb = msgmodel.unpackb
    sys.modules['msgpack'] = fake
    rewrite.install({'pyexec': PYEE, 'iconservice': PYEE, 'harness': VERIF, 'sxscore': VERIF})


# ---------------------------------------------------------------- state reset between paths
ROOTS = ('pyexec', 'iconservice', 'harness')
_CONT = (list, dict, set)


class Snapshot:
    """Module globals, class attributes and their (shallow) containers, restored before each path."""

    def __init__(self):
        self.mods = set(sys.modules)
        self.path = list(sys.path)
        self.saved = []
        seen = set()
        for name, mod in list(sys.modules.items()):
            if name.split('.')[0] not in ROOTS or mod is None:
                continue
            self._save(mod.__dict__, mod, seen)
            for v in list(mod.__dict__.values()):
                if isinstance(v, type) and v.__module__.split('.')[0] in ROOTS and id(v) not in seen:
                    seen.add(id(v))
                    self._save(v.__dict__, v, seen)

    def _save(self, d, owner, seen):
        ent = {}
        conts = []
        for k, v in d.items():
            if k.startswith('__') and k.endswith('__'):
                continue
            ent[k] = v
            if type(v) in _CONT and id(v) not in seen:
                seen.add(id(v))
                conts.append((v, copy.copy(v)))
        self.saved.append((owner, ent, conts))

    def restore(self):
        import threading
        from . import models
        models.STUBS.clear()
        for owner, ent, conts in self.saved:
            d = owner.__dict__
            for k in list(d):
                if k.startswith('__') and k.endswith('__'):
                    continue
                if k not in ent:
                    try:
                        delattr(owner, k)
                    except (AttributeError, TypeError):
                        pass
            for k, v in ent.items():
                if k not in d or d[k] is not v:
                    try:
                        setattr(owner, k, v)
                    except (AttributeError, TypeError):
                        pass
            for c, orig in conts:
                if type(c) is list:
                    c[:] = orig
                else:
                    c.clear()
                    c.update(orig)
            for v in ent.values():
                if isinstance(v, threading.local):
                    v.__dict__.clear()
        sys.path[:] = self.path
        for m in list(sys.modules):
            if m not in self.mods and m.split('.')[0] not in ('z3', 'encodings', 'symex'):
                del sys.modules[m]
