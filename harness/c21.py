"""Verification of packages: what is accepted imports and names nothing forbidden, and nothing runs before."""
import hashlib
import importlib.machinery
import json
import keyword
import os
import sys
import types
from symex.api import unit
from harness import sim
from harness.sim import Peer

META = {'assumptions': ['the compiler of CPython 3.12 is used as it is; names in compiled code are made symbolic',
                        'imports done by other means than statements and the listed names are not covered']}

LOWER = 'abcdefghijklmnopqrstuvwxyz_'
GOOD = '''import iconservice


class Contract(iconservice.IconScoreBase):
    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    @iconservice.external
    def m(self):
        pass
'''
class Code:
    """compiled code with some names replaced"""

    def __init__(self, code, names):
        self._code = code
        self.co_names = tuple(swap(n, names) for n in code.co_names)
        self.co_consts = tuple(konst(c, names) for c in code.co_consts)

    __class__ = property(lambda self: types.CodeType)

    def __getattr__(self, name):
        return getattr(self._code, name)


def swap(s, names):
    for k, v in names.items():
        if k in s:
            a, b = s.split(k, 1)
            return (a + v if a else v) + b if b else (a + v if a else v)
    return s


def konst(c, names):
    if type(c) is types.CodeType:
        return Code(c, names)
    if type(c) is tuple and any(type(x) is str for x in c):
        return tuple(swap(x, names) if type(x) is str else x for x in c)
    return c


class Loading:
    """what is read while packages are verified: the files, with symbolic names; executed modules are stubs"""

    def __init__(self, root, names, source):
        self.root, self.names, self.source = root, names, source
        self.verified = []
        self.executing = 0

    def __enter__(self):
        self.orig = orig = importlib.machinery.SourceFileLoader.get_code
        me = self

        def get_code(loader, fullname):
            path = loader.get_filename(fullname)
            if not path.startswith(me.root + '/'):
                return orig(loader, fullname)
            if me.executing:
                return compile(GOOD if path.endswith('main.py') else '', path, 'exec')
            if not os.path.exists(path):
                return orig(loader, fullname)
            me.verified.append(path)
            rel = os.path.relpath(path, me.root)
            if me.source:
                return compile(me.source[rel], path, 'exec')
            return Code(orig(loader, fullname), me.names)

        def exec_module(loader, module):
            me.executing += 1
            try:
                return me.orig_exec(loader, module)
            finally:
                me.executing -= 1
        self.orig_exec = importlib.machinery.SourceFileLoader.exec_module
        importlib.machinery.SourceFileLoader.get_code = get_code
        importlib.machinery.SourceFileLoader.exec_module = exec_module
        return self

    def __exit__(self, *a):
        importlib.machinery.SourceFileLoader.get_code = self.orig
        importlib.machinery.SourceFileLoader.exec_module = self.orig_exec


def deploy(files, main='Contract'):
    files = dict(files)
    files.setdefault('__init__.py', '')
    files.setdefault('package.json', json.dumps({'main_module': 'main', 'main_score': main}))
    tag = hashlib.sha256(repr(sorted(files.items())).encode()).hexdigest()[:24]
    path = os.path.join(sim.ROOT, 'v' + tag)
    for n, text in files.items():
        p = os.path.join(path, n)
        if os.path.exists(p):
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        tmp = p + '~%d' % os.getpid()
        with open(tmp, 'wb' if isinstance(text, bytes) else 'w') as f:
            f.write(text)
        os.rename(tmp, p)
    return path


def forget(path):
    base = os.path.basename(path)
    for k in [k for k in sys.modules if k == base or k.startswith(base + '.')]:
        del sys.modules[k]


def accepted(ctx, files, names):
    """the executor accepts the package; NAME stands for the symbolic name"""
    if not ctx.symbolic:
        files = {k: v.replace('NAME', names['NAME']) if isinstance(v, str) else v for k, v in files.items()}
    path = deploy(files)
    forget(path)
    peer = Peer(ctx, verify=True)
    source = None
    with Loading(path, names, source) as ld:
        r = peer.get_api(path)
    ctx.check(r is not None and len(peer.apis) == 1 and peer.errors == [], 'the question is answered')
    forget(path)
    return r is not None and r[0] == 0


def pad(k):
    """constants and names before the statement"""
    return 'pad = [None, 0]\n' + ''.join('pad = %d\n' % (1000 + i) for i in range(k))


def padn(k):
    return ''.join('n%d = 1\n' % i for i in range(k))


def indent(s, n=4):
    return ''.join(' ' * n + l + '\n' for l in s.splitlines())


WHERE = {
    'module': lambda s: s,
    'after': lambda s: 'import iconservice\nx = 1\n' + s,
    'function': lambda s: 'def f():\n' + indent(s),
    'argument function': lambda s: 'def f(a, b=1, *c, d=2, **e):\n' + indent('x = a + b\n' + s + 'return c, d, e, x\n'),
    'generator': lambda s: 'def f():\n    yield 1\n' + indent(s),
    'coroutine': lambda s: 'async def f():\n' + indent(s),
    'closure': lambda s: 'def f(a):\n    def g():\n        nonlocal a\n' + indent(s, 8) + '        return a\n    return g\n',
    'class': lambda s: 'class C:\n    x = 2\n' + indent(s),
    'method': lambda s: 'class C:\n    class D:\n        def f(self):\n            y = lambda: 3\n' + indent(s, 12),
    'decorated': lambda s: 'def d(f):\n    return f\n\n\n@d\n@d\ndef f():\n    def g():\n        @d\n        def h():\n' +
                           indent(s, 12) + '    return g\n',
    'try': lambda s: 'try:\n    x = 1\nexcept ValueError:\n' + indent(s) + 'finally:\n    x = 2\n',
    'handler': lambda s: 'try:\n' + indent(s) + 'except Exception:\n    pass\nelse:\n    y = 3\n',
    'loop': lambda s: 'for i in range(3):\n    while i:\n        with i as j:\n' + indent(s, 12),
    'branch': lambda s: 'x = 3\nif x > 2:\n    pass\nelif x:\n' + indent(s),
    'match': lambda s: 'x = 3\nmatch x:\n    case 1:\n        pass\n    case [2, y]:\n' + indent(s, 8),
    'generic': lambda s: 'def f[T](x: T):\n' + indent(s),
}
for _k in (1, 60, 120, 251, 253, 254, 255, 256, 257, 258, 300):
    WHERE['const %d' % _k] = (lambda k: lambda s: pad(k) + s)(_k)
for _k in (254, 255, 256, 257, 300, 513):
    WHERE['name %d' % _k] = (lambda k: lambda s: 'import iconservice\n' + padn(k) + s)(_k)
WHERE['const f'] = lambda s: 'def f():\n' + indent(pad(258) + s)
WHERE['const 66000'] = lambda s: pad(66000) + s
FEW = ['module', 'method', 'const 256', 'const 257', 'name 256', 'try', 'decorated']
IMPORTS = {
    'plain': 'import NAME\n', 'as': 'import NAME as x\n', 'list': 'import iconservice, NAME\n',
    'list2': 'import NAME, iconservice\n', 'dotted': 'import NAME.path\n', 'sub': 'import iconservice.NAME\n',
    'from': 'from NAME import path\n', 'from as': 'from NAME import path as iconservice\n',
    'from two': 'from NAME import path, sep\n', 'from icon': 'from iconservice import NAME\n',
    'from icon two': 'from iconservice import IconScoreBase, NAME\n', 'from sub': 'from iconservice.NAME import x\n',
    'star': 'from NAME import *\n',
    'relative': 'from . import NAME\n', 'relative from': 'from .NAME import x\n', 'relative star': 'from .NAME import *\n',
    'deep': 'from ..NAME import x\n', 'relative as': 'from .NAME.b import c as d\n'}
FILES = {
    'main': lambda s: {'main.py': s},
    'init': lambda s: {'main.py': GOOD, '__init__.py': s},
    'other': lambda s: {'main.py': GOOD, 'zother.py': s},
    'first': lambda s: {'main.py': GOOD, 'aother.py': s},
    'sub': lambda s: {'main.py': GOOD, 'sub/__init__.py': '', 'sub/mod.py': s},
    'sub init': lambda s: {'main.py': GOOD, 'sub/__init__.py': s},
    'deep': lambda s: {'main.py': GOOD, 'sub/__init__.py': '', 'sub/deep/__init__.py': '', 'sub/deep/mod.py': s},
    'namespace': lambda s: {'main.py': GOOD, 'sub/mod.py': s},
    'same name': lambda s: {'main.py': GOOD, 'sub.py': '', 'sub/__init__.py': s},
    'same name 2': lambda s: {'main.py': GOOD, 'sub.py': s, 'sub/__init__.py': ''},
    'tests': lambda s: {'main.py': GOOD, 'tests/__init__.py': '', 'tests/test_x.py': s},
    'hidden': lambda s: {'main.py': GOOD, '_x.py': s},
    'main of package': lambda s: {'main.py': GOOD, '__main__.py': s},
    'in cache': lambda s: {'main.py': GOOD, '__pycache__/mod.py': s},
}


def word(ctx, n):
    name = ctx.str('name', n, alphabet=LOWER)
    for k in keyword.kwlist:
        if len(k) == n:
            ctx.assume(ctx.Not(ctx.eq(name, k)))
    return name


@unit(cases=[dict(form=f, where=w, n=n) for f in IMPORTS for w, n in
             ([('module', 2), ('module', 11)] + [(w, 11) for w in FEW[1:]])],
      thorough_cases=[dict(form=f, where=w, n=n) for f in IMPORTS for w in WHERE for n in (1, 5, 10, 11, 12)
                      if n in (1, 11) or w in FEW],
      covers=['accepted', 'refused'],
      bounds='18 forms of import statements, at module level, in nested blocks and after up to 257 constants or names '
             '(33 places in the thorough tier), naming any identifier of 2 or 11 letters')
def imports(ctx, form, where, n):
    name = word(ctx, n)
    ok = accepted(ctx, {'main.py': WHERE[where](IMPORTS[form])}, {'NAME': name})
    relative = form.startswith('relative') or form == 'deep'
    banned = among(ctx, name)
    if 'star' in form and indented(where):
        want = False                    # not a program
    elif form == 'relative as':
        want = True
    elif relative:
        want = ctx.Not(banned)
    elif form in ('plain', 'as', 'list', 'list2'):
        want = ctx.And(ctx.eq(name, 'iconservice'), True)
    else:
        want = False
    ctx.check(ctx.Implies(ok, want), 'what is accepted imports the interface and its own modules only')
    ctx.check(ctx.Implies(want, ok), 'the interface and its own modules can be imported')
    ctx.cover('accepted' if ok else 'refused')


def indented(where):
    return where not in ('module', 'after', 'try', 'handler', 'loop', 'branch', 'match') and not where[-1].isdigit()


def among(ctx, name):
    return ctx.Or(*[ctx.eq(name, k) for k in ('exec', 'eval', 'compile', '__import__')])


@unit(cases=[dict(where=w) for w in WHERE if w != 'const 66000'], covers=['accepted', 'refused'],
      bounds='an import of any identifier of 2 or 11 letters at 32 places')
def places(ctx, where):
    n = ctx.choice('n', [2, 11])
    imports(ctx, 'plain', where, n)


@unit(cases=[dict(at=f) for f in FILES], covers=['accepted', 'refused'],
      bounds='a forbidden import or name, or none, in each of 14 positions in the package; any identifier of 2, 4 or 11 letters')
def files(ctx, at):
    n = ctx.choice('n', [2, 4, 11])
    name = word(ctx, n)
    what = ctx.choice('what', ['import', 'name'])
    if what == 'import':
        s, want = 'import NAME\n', ctx.eq(name, 'iconservice')
    else:
        s, want = 'def f(x):\n    return NAME(x)\n', ctx.Not(among(ctx, name))
    ok = accepted(ctx, FILES[at](s), {'NAME': name})
    ctx.check(ctx.Implies(ok, want), 'no module of an accepted package is left out')
    if at not in ('in cache', 'same name 2'):
        ctx.check(ctx.Implies(want, ok), 'a proper package is accepted')
    ctx.cover('accepted' if ok else 'refused')


USES = {'call': 'NAME("1")\n', 'load': 'x = NAME\n', 'argument': 'print(NAME)\n', 'attribute': 'x = [].NAME\n',
        'method': 'x = [].NAME(1)\n', 'store': 'NAME = 1\n', 'delete': 'del NAME\n', 'global': 'global NAME\nNAME = 1\n',
        'import from': 'from .m import NAME\n', 'import as': 'from .m import NAME as y\n', 'default': 'lambda a=NAME: a\n',
        'inner': 'x = [NAME(i) for i in (1, 2)]\n', 'lambda': 'x = lambda: NAME\n', 'generator': 'x = (NAME(i) for i in y)\n',
        'set attribute': 'x = print\nx.NAME = 1\n', 'base': 'class X(NAME):\n    pass\n',
        'decorator': '@NAME\ndef g():\n    pass\n', 'f-string': 'x = f"{NAME(1)}"\n',
        'nested f-string': 'x = f"{1:{NAME(2)}}"\n', 'star': 'x = [*NAME()]\n', 'assert': 'assert NAME, NAME()\n'}


@unit(cases=[dict(use=u, n=n) for u in USES for n in (4, 7, 10)], thorough_cases=[dict(use=u, n=n) for u in USES for n in
                                                                                 range(1, 13)],
      covers=['accepted'],
      bounds='21 kinds of uses of a name in 5 places (32 in the thorough tier); any identifier of 4, 7 or 10 letters')
def names(ctx, use, n):
    name = word(ctx, n)
    where = ctx.choice('where', ['module', 'method', 'decorated', 'name 257'] if use != 'global' else ['method'])
    local = use in ('store', 'delete', 'import from', 'import as') and where in ('method', 'decorated')
    ok = accepted(ctx, {'main.py': WHERE[where](USES[use])}, {'NAME': name})
    banned = among(ctx, name)
    if not local or use == 'import from' or use == 'import as':
        ctx.check(ctx.Implies(ok, ctx.Not(banned)), 'what is accepted does not name what is forbidden')
    ctx.check(ctx.Or(ok, banned), 'other names are allowed')
    ctx.cover('accepted' if ok else 'refused')


EXTRA = ['evil.pyc', 'evil.so', 'evil.abi3.so', 'evil%s' % importlib.machinery.EXTENSION_SUFFIXES[0], 'sub/evil.pyc',
         'sub/deep/evil.so', '__pycache__/evil.pyc', '__init__.pyc', 'sub/__init__.pyc', 'main.pyc', 'main.so',
         '__pycache__/main.cpython-312.pyc', 'evil.pyo', 'evil.pyw', 'evil.pyi', 'evil.PY', 'readme.txt', 'data.json', 'pyc',
         'x.py.txt', 'evil.so.1', 'lib.so/readme', 'sub/x.cpython-312.opt-1.pyc']


@unit(cases=[dict(verify=v) for v in (True, False)], covers=['accepted'],
      bounds='23 kinds of files beside the modules of the package')
def foreign(ctx, verify):
    """whatever a module of an accepted package can import from the package has been looked at"""
    extra = ctx.choice('file', EXTRA)
    path = deploy({'main.py': GOOD, extra: b'nothing'})
    forget(path)
    if extra.startswith('main') or extra.startswith('__init__') or extra.startswith('__pycache__/main'):
        # the modules that are there must not be loaded from something else
        files_ = {'main.py': GOOD}
    peer = Peer(ctx, verify=verify)
    with Loading(path, {}, None):
        r = peer.get_api(path)
    forget(path)
    ctx.check(r is not None and len(peer.apis) == 1 and peer.errors == [], 'the question is answered')
    ok = r is not None and r[0] == 0
    d, base = os.path.split(os.path.join(path, extra))
    mod = base.split('.')[0]
    spec = None
    if mod.isidentifier():
        finder = importlib.machinery.FileFinder(
            d, (importlib.machinery.ExtensionFileLoader, importlib.machinery.EXTENSION_SUFFIXES),
            (importlib.machinery.SourcelessFileLoader, importlib.machinery.BYTECODE_SUFFIXES))
        spec = finder.find_spec(mod)
    if verify:
        ctx.check(not (ok and spec is not None and spec.loader is not None), 'modules without source are not accepted')
    if spec is None or spec.loader is None or not verify:
        if not (extra.startswith('main.so') or extra == '__init__.pyc' or extra.startswith('sub/__init__')):
            ctx.check(ok, 'other files do not matter')
    ctx.cover('accepted' if ok else 'refused')


RAN = []
MARK = 'import harness.c21\nharness.c21.RAN.append(__name__)\n'


class Trace:
    """notes which files of the package are executed"""

    def __init__(self, root):
        self.root, self.ran = root, []

    def __enter__(self):
        self.orig = orig = importlib.machinery.SourceFileLoader.exec_module
        me = self

        def exec_module(loader, module):
            if module.__spec__.origin.startswith(me.root + '/'):
                me.ran.append(os.path.relpath(module.__spec__.origin, me.root))
            return orig(loader, module)
        importlib.machinery.SourceFileLoader.exec_module = exec_module
        return self

    def __exit__(self, *a):
        importlib.machinery.SourceFileLoader.exec_module = self.orig


BAD = ['import os\n', 'def f():\n    import sys\n', 'x = eval\n', 'from os import path\n', 'import iconservice.x\n']


@unit(cases=[dict(at=f) for f in FILES], covers=['refused', 'ran', 'unverified'],
      bounds='five kinds of offences in each of 14 positions, verification on or off, asked twice')
def nothing_runs(ctx, at):
    bad = ctx.choice('bad', [None] + BAD)
    verify = ctx.flag('verify')
    second = ctx.flag('second')
    files_ = {'__init__.py': '', 'sub/__init__.py': ''}
    files_.update(FILES[at](bad or 'x = 1\n'))
    if at == 'main':
        files_['main.py'] = (bad or '') + GOOD
    path = deploy(files_)
    forget(path)
    peer = Peer(ctx, verify=verify)
    with Trace(path) as t:
        r = peer.get_api(path)
        if second:
            n = len(t.ran)
            r2 = peer.get_api(path)
            ctx.check(r is not None and r2 is not None and r[0] == r2[0], 'the second answer is the same')
            ctx.check(len(t.ran) == n or not (verify and bad), 'and runs nothing again')
    loaded = [m for m in sys.modules if m.startswith(os.path.basename(path))]
    forget(path)
    ctx.check(r is not None and len(peer.apis) == (2 if second else 1), 'the question is answered')
    if verify and bad is not None:
        ctx.check(r[0] != 0, 'the package is refused')
        ctx.check(t.ran == [] and loaded == [], 'nothing of a refused package ran')
        ctx.cover('refused')
    elif bad is None:
        if at != 'in cache':
            ctx.check(r[0] == 0 and 'main.py' in t.ran, 'a proper package is loaded')
        ctx.cover('ran')
    else:
        ctx.check(r[0] == 0 or at in ('main', 'init'), 'without verification it is loaded')
        ctx.cover('unverified')
