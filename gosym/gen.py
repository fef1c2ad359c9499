"""SSA form of a Go function -> Python function over the values of rt, generated at first call."""
import base64
import copy

from symex import core
from . import rt
from .rt import GoPanic, Ptr, Slice, Iface, Closure, GoMap, Unsupported

class Poison:
    """what a package's initialisation could not compute"""
    def __getattr__(self, n):
        raise Unsupported('a value that the initialisation of a package did not produce')

    def __deepcopy__(self, memo):
        return self






class World:
    def __init__(self, client, intr, prefix_intr, module):
        self.c = client
        self.intr = intr
        self.prefix_intr = prefix_intr
        self.module = module
        self.ns = {}
        for k in dir(rt):
            if not k.startswith('__'):
                self.ns[k] = getattr(rt, k)
        self.ns['W'] = self
        self.ns['Chan'] = Chan
        self.goroutines = []
        self.pools = {}
        self.ns['CALLED'] = self.called = set()
        self.compiled = {}
        self.names = {}
        self.types = {}
        self.tkind = {}
        self.globs = {}             # per path: globals of the module's packages
        self.sglobs = {}            # globals of other packages; set up once and shared
        self.pristine = {}
        self.ginfo = {}
        self.inited = set()
        self.mcache = {}
        self.hm = {}
        self.icache = {}
        self.zfun = {}
        self.state0 = {}            # what the harness asked for
        self.ctx = None
        self.args = {}
        self.poisoned = []

    # ------------------------------------------------------------ per path
    def start(self):
        """initialise the module's packages in the order of their imports"""
        for pkg in self.c('order')['pkgs']:
            if self.inmodule(pkg):
                self.init(pkg)
        self.pristine = self.globs
        self.globs = {}

    def inmodule(self, pkg):
        return pkg == self.module or pkg.startswith(self.module + '/')

    def reset(self):
        memo = {}
        todo = list(self.sglobs.values())
        while todo:
            x = todo.pop()
            if id(x) in memo:
                continue
            t = type(x)
            if t is Ptr:
                memo[id(x)] = x
                todo.append(x.c)
            elif t is list:
                memo[id(x)] = x
                todo.extend(y for y in x if type(y) not in (int, bytes, bool))
            elif t is Slice:
                memo[id(x)] = x
                todo.append(x.a)
            elif t is GoMap:
                memo[id(x)] = x
                for k, v in x.d.values():
                    todo.append(k)
                    todo.append(v)
            elif t is Iface:
                memo[id(x)] = x
                todo.append(x.v)
            elif t is Closure:
                memo[id(x)] = x
                todo.extend(x.b)
            elif isinstance(x, rt.PyObj):
                memo[id(x)] = x
        self.globs = copy.deepcopy(self.pristine, memo)
        del rt.PANICS[:]
        rt.ENCS.clear()
        self.goroutines = []
        self.pools = {}

    # ------------------------------------------------------------ types
    def type(self, i):
        t = self.types.get(i)
        if t is None:
            t = self.types[i] = self.c('type', id=i)
        return t

    def under(self, i):
        t = self.type(i)
        while t['k'] == 'named':
            i = t['under']
            t = self.type(i)
        return t

    def kind(self, i):
        """int kinds by their basic name, or str/bool/float/ptr/slice/…"""
        k = self.tkind.get(i)
        if k is None:
            t = self.under(i)
            k = t['k']
            if k == 'basic':
                n, info = t['name'], t['info']
                if info & 2:
                    k = {'byte': 'uint8', 'rune': 'int32', 'untyped int': 'int', 'untyped rune': 'int32'}.get(n, n)
                elif info & 32:
                    k = 'str'
                elif info & 1:
                    k = 'bool'
                elif info & 4:
                    k = 'float'
                else:
                    k = n
            self.tkind[i] = k
        return k

    def tname(self, i):
        return self.type(i)['s']

    def isbig(self, i):
        return self.tname(i) == 'math/big.Int'

    def zero(self, i):
        """Python expression for the zero value"""
        k = self.kind(i)
        if k in rt.RANGE:
            return '0'
        if k == 'str':
            return "b''"
        if k == 'bool':
            return 'False'
        if k == 'float':
            return '0.0'
        if k in ('struct', 'array'):
            n = 'Z%d' % i
            if n not in self.ns:
                if self.tname(i) == 'math/big.Int':
                    src = '[0]'
                elif self.tname(i) == 'math/big.Rat':
                    src = '[0, 1]'
                elif k == 'struct':
                    src = '[%s]' % ', '.join(self.zero(f[1]) for f in self.under(i)['fields'])
                else:
                    e, ln = self.zero(self.under(i)['elem']), self.under(i)['len']
                    src = '[%s] * %d' % (e, ln) if not e.endswith(')') else '[%s for _ in range(%d)]' % (e, ln)
                self.ns[n] = eval('lambda: ' + src, self.ns)
            return n + '()'
        if k == 'tuple':
            return '(%s,)' % ', '.join(self.zero(e) for e in self.type(i)['elems'])
        return 'None'

    def zerof(self, i):
        f = self.zfun.get(i)
        if f is None:
            f = self.zfun[i] = eval('lambda: ' + self.zero(i), self.ns)
        return f

    def typeid(self, path, name):
        return self.c('typebyname', path=path, name=name)['id']

    def ptrto(self, i):
        return self.c('ptrto', t=i)['id']

    # ------------------------------------------------------------ calls
    def fname(self, i):
        n = self.names.get(i)
        if n is None:
            n = self.names[i] = self.c('fname', id=i)
        return n

    def fn(self, i):
        """callable for a function; compiled when first called"""
        f = self.compiled.get(i)
        if f is not None:
            return f
        key = 'F%d' % i
        f = self.ns.get(key)
        if f is None:
            def stub(*a):
                return self.compile(i)(*a)
            stub.fid = i
            f = self.ns[key] = stub
        return f

    def intrinsic(self, i):
        n = self.fname(i)
        for nm in (n['name'], n['orig']):
            if nm and nm in self.intr:
                return self.intr[nm]
        for p, f in self.prefix_intr:
            if n['name'].startswith(p):
                return f
        return None

    def compile(self, i):
        f = self.compiled.get(i)
        if f is not None:
            return f
        f = self.intrinsic(i)
        if f is None:
            f = Gen(self, i).make()
        self.compiled[i] = f
        self.ns['F%d' % i] = f
        return f

    def method(self, t, m, mp=''):
        key = (t, m, mp)
        f = self.mcache.get(key)
        if f is None:
            r = self.c('method', t=t, m=m, mp=mp)['id']
            if r < 0:
                raise Unsupported('no method %s of %s' % (m, self.tname(t)))
            f = self.mcache[key] = self.fn(r)
        return f

    def invoke(self, x, m, mp, *a):
        if x is None:
            rt.nilderef()
        if isinstance(x.v, rt.PyObj):
            return x.v.go(m, *a)
        f = self.method(x.t, m, mp)
        v = x.v
        return f(rt.copyv(v) if type(v) is list else v, *a)

    def implements(self, t, i):
        if t == 'py':
            return True
        key = (t, i)
        r = self.icache.get(key)
        if r is None:
            r = self.icache[key] = self.c('impl', t=t, i=i)['ok']
        return r

    def assert_iface(self, x, at, ok):
        if x is not None and self.implements_v(x, at):
            return (x, True) if ok else x
        if ok:
            return (None, False)
        raise GoPanic(None, 'interface conversion')

    def implements_v(self, x, at):
        if isinstance(x.v, rt.PyObj):
            ms = self.under(at)['methods']
            return all(hasattr(x.v, 'go_' + m) for m in ms)
        return self.implements(x.t, at)

    def assert_type(self, x, at, z, ok):
        if x is not None and x.t == at:
            v = rt.copyv(x.v) if type(x.v) is list else x.v
            return (v, True) if ok else v
        if ok:
            return (z(), False)
        raise GoPanic(None, 'interface conversion: %s is not %s' % (
            'nil' if x is None else x.t if x.t == 'py' else self.tname(x.t), self.tname(at)))

    # ------------------------------------------------------------ globals
    def glob(self, g):
        p = self.globs.get(g)
        if p is None:
            p = self.sglobs.get(g)
        if p is None:
            info = self.ginfo.get(g)
            if info is None:
                info = self.ginfo[g] = self.c('glob', id=g)
                info['z'] = self.zerof(info['et'])
            pkg = info['pkg']
            p = Ptr([info['z']()], 0)
            if self.inmodule(pkg):
                self.globs[g] = p
            else:
                self.sglobs[g] = p
                if pkg not in self.inited:
                    self.init(pkg)
        return p

    def globbyname(self, path, name):
        return self.glob(self.c('globbyname', path=path, name=name)['id'])

    def eof(self):
        return rt.load(self.globbyname('io', 'EOF'))

    def init(self, pkg):
        self.inited.add(pkg)
        skip = self.intr.get('init:' + pkg)
        if skip is not None:
            skip(self)
            return
        fs = self.c('pkg', path=pkg)['fns']
        if 'init' in fs:
            self.fn(fs['init'])()

    def has_method(self, t, m):
        r = self.hm.get((t, m))
        if r is None:
            r = self.hm[(t, m)] = self.c('method', t=t, m=m, mp='')['id'] >= 0
        return r

    def real(self, name):
        """the function itself where an intrinsic of that name exists"""
        key = ('real', name)
        f = self.compiled.get(key)
        if f is None:
            path, n = name.rsplit('.', 1)
            f = self.compiled[key] = Gen(self, self.c('pkg', path=path)['fns'][n]).make()
        return f

    def func(self, path, name):
        return self.fn(self.c('pkg', path=path)['fns'][name])

    def poison(self, what, ex):
        self.poisoned.append('%s: %r' % (what, ex))
        return Poison()

    # ------------------------------------------------------------ conversions
    def conv(self, x, ft, tt):
        fk, tk = self.kind(ft), self.kind(tt)
        if tk in rt.RANGE:
            if fk in rt.RANGE:
                return rt.fit(x, tk)
            if fk == 'float':
                return rt.fit(int(x), tk)
        if tk == 'float':
            return float(x)
        if tk == 'str':
            if fk == 'str':
                return x
            if fk in rt.RANGE:
                return chr(rt.concr(x)).encode()
            if fk == 'slice':
                if self.kind(self.under(ft)['elem']) == 'uint8':
                    return rt.b2s(x)
                return b''.join(chr(rt.concr(c)).encode() for c in rt.elems(x))
        if tk == 'slice' and fk == 'str':
            if self.kind(self.under(tt)['elem']) == 'uint8':
                return rt.s2b(x)
            ls = [ord(c) for c in (x if type(x) is bytes else bytes(x)).decode('utf-8', 'replace')]
            return Slice(ls, 0, len(ls), len(ls))
        if tk == fk and tk in ('ptr', 'slice', 'struct', 'array', 'map', 'sig', 'chan', 'iface'):
            return x
        raise Unsupported('conversion %s -> %s' % (self.tname(ft), self.tname(tt)))


class Gen:
    def __init__(self, w, fid):
        self.w = w
        self.d = w.c('fn', id=fid)
        self.fid = fid
        self.pkginit = self.d['short'] == 'init' and not self.d['params'] and bool(self.d['syn'])
        self.out = []
        self.ind = 1

    def e(self, s):
        self.out.append('  ' * self.ind + s)

    def const(self, c):
        _, t, k, v = c
        w = self.w
        if k == 'zero':
            return w.zero(t)
        if k == 'bool':
            return 'True' if v else 'False'
        if k == 'str':
            return repr(base64.b64decode(v))
        if k == 'int':
            if w.kind(t) == 'float':
                return repr(float(int(v)))
            return '(%s)' % v if v[0] == '-' else v
        if k == 'float':
            return repr(v)
        return 'W.unsup("constant")'

    def v(self, x):
        if x is None:
            return 'None'
        if type(x) is int:
            return 'r%d' % x
        k = x[0]
        if k == 'c':
            return self.const(x)
        if k == 'f':
            self.w.fn(x[1])
            n = 'C%d' % x[1]
            if n not in self.w.ns:
                self.w.ns[n] = Closure(self.w.fn(x[1]), ())
            return n
        if k == 'g':
            return 'W.glob(%d)' % x[1]
        if k == 'b':
            return 'builtin_' + x[1]
        raise Unsupported('operand %r' % (x,))

    def call(self, c, rt_=None):
        """-> (callee expression, argument expressions)"""
        args = [self.v(a) for a in c['args']]
        fn = c['fn']
        if 'm' in c:
            return 'W.invoke', [self.v(fn), repr(c['m']), repr(c['mp'])] + args
        if type(fn) is list and fn[0] == 'f':
            self.w.fn(fn[1])
            return 'F%d' % fn[1], args
        if type(fn) is list and fn[0] == 'b':
            return self.builtin(fn[1], c, args)
        return 'W.callv', [self.v(fn)] + args

    def builtin(self, n, c, args):
        at = c['at']
        w = self.w
        if n == 'len':
            return 'slen', args
        if n == 'cap':
            return 'cap', args
        if n == 'append':
            return 'append', args
        if n == 'copy':
            return 'copy_', args
        if n == 'delete':
            return '(lambda m, k: m.delete(k) if m is not None else None)', args
        if n == 'panic':
            return 'gopanic', args
        if n == 'recover':
            return 'recover_', []
        if n in ('min', 'max'):
            return 'W.b_' + n, args
        if n == 'ssa:wrapnilchk':
            return '(lambda p, *a: p)', args
        if n in ('print', 'println'):
            return '(lambda *a: None)', args
        if n == 'close':
            return 'W.b_close', args
        if n == 'clear':
            return 'W.b_clear', args
        return 'W.unsup', [repr('builtin ' + n)]

    # ------------------------------------------------------------ blocks
    def make(self):
        d, w = self.d, self.w
        if not d['blocks']:
            nm = d['name']

            def missing(*a):
                raise Unsupported('no Go body: ' + nm)
            return missing
        fname = 'f%d' % self.fid
        ps = ', '.join('r%d' % i for i in d['params'] + d['fv'])
        self.out.append('def %s(%s):' % (fname, ps))
        self.e('CALLED.add(%d)' % self.fid)
        defer = d['defer']
        if '/zz/kit.' in d['name'] and d['syn'].startswith('wrapper for func (') and d['syn'][18:].split(')')[0].find('/zz/') < 0:
            nm = d['name']

            def notmade(*a):
                raise Unsupported('not provided by the harness: ' + nm)
            return notmade
        nb = len(d['blocks'])
        multi = nb > 1 or defer
        if defer:
            self.e('D = []')
        if multi:
            self.e('b = 0')
            self.e('while True:')
            self.ind += 1
            if defer:
                self.e('try:')
                self.ind += 1
                self.e('while True:')
                self.ind += 1
        first = True
        for i, b in enumerate(d['blocks']):
            if multi:
                self.e('%s b == %d:' % ('if' if first else 'elif', i))
                self.ind += 1
            first = False
            self.block(i, b)
            if multi:
                self.ind -= 1
        if defer:
            self.ind -= 2
            self.e('except GoPanic as p:')
            self.e('  panic_defers(D, p)')
            if d['rec'] >= 0:
                self.e('  b = %d' % d['rec'])
            else:
                z = w.zero(d['rt'])
                es = w.type(d['rt'])['elems']
                self.e('  return %s' % ('None' if not es else w.zero(es[0]) if len(es) == 1 else z))
        src = '\n'.join(self.out)
        ns = w.ns
        name = d['name']
        try:
            code = compile(src, '<go %s>' % name, 'exec')
        except SyntaxError as ex:
            raise Unsupported('code generation for %s: %s\n%s' % (name, ex, src))
        loc = {}
        exec(code, ns, loc)
        return loc[fname]

    def phis(self, frm, to):
        b = self.d['blocks'][to]
        k = None
        ls, rs = [], []
        for ins in b['i']:
            if ins['o'] != 'phi':
                break
            if k is None:
                k = b['p'].index(frm)
            ls.append('r%d' % ins['r'])
            rs.append(self.v(ins['e'][k]))
        if ls:
            self.e('%s = %s' % (', '.join(ls), ', '.join(rs)))

    def jump(self, frm, to):
        self.phis(frm, to)
        self.e('b = %d' % to)
        self.e('continue')

    def block(self, bi, b):
        w = self.w
        for ins in b['i']:
            o = ins['o']
            f = getattr(self, 'i_' + o, None)
            if f is None:
                self.e('W.unsup(%r)' % ('instruction ' + o + ' ' + str(ins.get('s', ''))))
                continue
            if self.pkginit and o not in ('phi', 'if', 'jump', 'ret'):
                # a package's initialisation goes on where a part of it is out of reach
                if o == 'call':
                    fn = ins['call']['fn']
                    if type(fn) is list and fn[0] == 'f' and w.fname(fn[1])['name'].endswith('.init'):
                        continue
                self.e('try:')
                self.ind += 1
                f(ins, bi, b)
                self.ind -= 1
                self.e('except (Unsupported, GoPanic, TypeError, AttributeError, KeyError, NameError, ValueError, '
                       'IndexError) as ex:')
                if 'r' in ins:
                    self.e('  r%d = W.poison(%r, ex)' % (ins['r'], self.d['name']))
                elif o == 'store':
                    self.e('  store(%s, W.poison(%r, ex))' % (self.v(ins['x']), self.d['name']))
                else:
                    self.e('  W.poison(%r, ex)' % self.d['name'])
                continue
            f(ins, bi, b)
        if not b['i']:
            self.e('pass')

    def set(self, ins, expr):
        self.e('r%d = %s' % (ins['r'], expr))

    def i_phi(self, ins, bi, b):
        pass

    def i_alloc(self, ins, bi, b):
        self.set(ins, 'Ptr([%s], 0)' % self.w.zero(ins['et']))

    def i_bin(self, ins, bi, b):
        w = self.w
        op, x, y = ins['op'], self.v(ins['x']), self.v(ins['y'])
        xk = w.kind(ins['xt'])
        if op in ('==', '!='):
            yk = w.kind(ins['yt'])
            if xk in rt.RANGE or xk in ('str', 'bool', 'float') and xk == yk:
                self.set(ins, '%s %s %s' % (x, op, y))
                return
            if xk == 'iface' and yk == 'iface' or xk in ('struct', 'array'):
                ex = 'eqv(%s, %s)' % (x, y)
            elif xk == 'iface':
                ex = 'eqv(%s, Iface(%d, %s))' % (x, ins['yt'], y)
            elif yk == 'iface':
                ex = 'eqv(Iface(%d, %s), %s)' % (ins['xt'], x, y)
            else:
                ex = 'peq(%s, %s)' % (x, y)
            self.set(ins, ex if op == '==' else 's_not(%s)' % ex)
            return
        if op in ('<', '<=', '>', '>='):
            self.set(ins, '%s %s %s' % (x, op, y))
            return
        if xk == 'str' and op == '+':
            self.set(ins, '%s + %s' % (x, y))
            return
        if xk == 'float':
            self.set(ins, '%s %s %s' % (x, op, y))
            return
        if xk not in rt.RANGE:
            self.set(ins, 'W.unsup(%r)' % ('%s on %s' % (op, xk)))
            return
        if op in '+-*':
            ex = 'fit(%s %s %s, %r)' % (x, op, y, xk)
        elif op == '/':
            ex = 'fit(goquo(%s, %s), %r)' % (x, y, xk)
        elif op == '%':
            ex = 'gorem(%s, %s)' % (x, y)
        elif op in ('&', '|', '^'):
            ex = 'bitop(%r, %s, %s)' % (op, x, y)
        elif op == '&^':
            m = rt.RANGE[xk]
            ex = 'bitop("&", %s, fit(~%s, %r))' % (x, y, xk)
        elif op == '<<':
            ex = 'fit(shl(%s, %s), %r)' % (x, y, xk)
        elif op == '>>':
            ex = 'shr(%s, %s)' % (x, y)
        else:
            ex = 'W.unsup(%r)' % ('operator ' + op)
        self.set(ins, ex)

    def i_un(self, ins, bi, b):
        op, x = ins['op'], self.v(ins['x'])
        k = self.w.kind(ins['xt'])
        if op == '*':
            if type(ins['x']) is list and ins['x'][0] == 'g':
                # a global: what its package's init did is needed
                self.set(ins, 'load(%s)' % x)
            else:
                self.set(ins, 'load(%s)' % x)
        elif op == '!':
            self.set(ins, 's_not(%s)' % x)
        elif op == '-':
            self.set(ins, '-%s' % x if k == 'float' else 'fit(-%s, %r)' % (x, k))
        elif op == '^':
            self.set(ins, 'fit(~%s, %r)' % (x, k))
        elif op == '<-':
            et = self.w.under(ins['xt'])['elem']
            self.w.ns['ZF%d' % et] = self.w.zerof(et)
            self.set(ins, 'W.chan_recv(%s, %r, ZF%d)' % (x, ins['ok'], et))
        else:
            self.set(ins, 'W.unsup(%r)' % ('unary ' + op))

    def i_call(self, ins, bi, b):
        f, a = self.call(ins['call'])
        self.set(ins, '%s(%s)' % (f, ', '.join(a)))

    def i_defer(self, ins, bi, b):
        f, a = self.call(ins['call'])
        self.e('D.append((%s, (%s)))' % (f, ''.join(x + ', ' for x in a)))

    def i_go(self, ins, bi, b):
        f, a = self.call(ins['call'])
        self.e('W.go(%s, (%s))' % (f, ''.join(x + ', ' for x in a)))

    def i_rundefers(self, ins, bi, b):
        self.e('run_defers(D)')

    def i_chiface(self, ins, bi, b):
        self.set(ins, self.v(ins['x']))

    def i_chtype(self, ins, bi, b):
        self.set(ins, self.v(ins['x']))

    def i_conv(self, ins, bi, b):
        fk, tk = self.w.kind(ins['xt']), self.w.kind(ins['t'])
        if fk in rt.RANGE and tk in rt.RANGE:
            (a, c, _), (x, y, _) = rt.RANGE[fk], rt.RANGE[tk]
            if x <= a and c <= y:
                self.set(ins, self.v(ins['x']))
            else:
                self.set(ins, 'fit(%s, %r)' % (self.v(ins['x']), tk))
            return
        self.set(ins, 'W.conv(%s, %d, %d)' % (self.v(ins['x']), ins['xt'], ins['t']))

    def i_s2a(self, ins, bi, b):
        n = self.w.under(self.w.under(ins['t'])['elem'])['len']
        self.set(ins, 'W.s2a(%s, %d)' % (self.v(ins['x']), n))

    def i_extract(self, ins, bi, b):
        self.set(ins, '%s[%d]' % (self.v(ins['x']), ins['i']))

    def i_field(self, ins, bi, b):
        self.set(ins, 'field(%s, %d)' % (self.v(ins['x']), ins['i']))

    def i_fieldaddr(self, ins, bi, b):
        self.set(ins, 'fieldaddr(%s, %d)' % (self.v(ins['x']), ins['i']))

    def i_if(self, ins, bi, b):
        t, f = b['s']
        c = self.v(ins['x'])
        self.e('if %s:' % c)
        self.ind += 1
        self.jump(bi, t)
        self.ind -= 1
        self.jump(bi, f)

    def i_jump(self, ins, bi, b):
        self.jump(bi, b['s'][0])

    def i_index(self, ins, bi, b):
        self.set(ins, 'index(%s, %s)' % (self.v(ins['x']), self.v(ins['y'])))

    def i_indexaddr(self, ins, bi, b):
        self.set(ins, 'indexaddr(%s, %s)' % (self.v(ins['x']), self.v(ins['y'])))

    def i_lookup(self, ins, bi, b):
        if self.w.kind(ins['xt']) == 'str':
            self.set(ins, 'strindex(%s, %s)' % (self.v(ins['x']), self.v(ins['y'])))
            return
        et = self.w.under(ins['xt'])['elem']
        self.w.ns['ZF%d' % et] = self.w.zerof(et)
        self.set(ins, 'lookup(%s, %s, ZF%d, %r)' % (self.v(ins['x']), self.v(ins['y']), et, ins['ok']))

    def i_mkchan(self, ins, bi, b):
        self.set(ins, 'Chan(%s)' % self.v(ins['x']))

    def i_closure(self, ins, bi, b):
        self.w.fn(ins['fn'])
        self.set(ins, 'Closure(F%d, (%s))' % (ins['fn'], ''.join(self.v(x) + ', ' for x in ins['b'])))

    def i_mkiface(self, ins, bi, b):
        k = self.w.kind(ins['xt'])
        x = self.v(ins['x'])
        self.set(ins, 'Iface(%d, %s)' % (ins['xt'], 'copyv(%s)' % x if k in ('struct', 'array') else x))

    def i_mkmap(self, ins, bi, b):
        self.set(ins, 'GoMap()')

    def i_mkslice(self, ins, bi, b):
        et = self.w.under(ins['t'])['elem']
        self.w.ns['ZF%d' % et] = self.w.zerof(et)
        self.set(ins, 'W.mkslice(ZF%d, %s, %s)' % (et, self.v(ins['len']), self.v(ins['cap'])))

    def i_mapupd(self, ins, bi, b):
        self.e('mapupdate(%s, %s, %s)' % (self.v(ins['m']), self.v(ins['x']), self.v(ins['y'])))

    def i_next(self, ins, bi, b):
        self.set(ins, '%s.next()' % self.v(ins['x']))

    def i_panic(self, ins, bi, b):
        self.e('gopanic(%s)' % self.v(ins['x']))

    def i_range(self, ins, bi, b):
        self.set(ins, 'range_(%s, %r)' % (self.v(ins['x']), self.w.kind(ins['xt']) == 'str'))

    def i_ret(self, ins, bi, b):
        xs = [self.v(x) for x in ins['x']]
        if not xs:
            self.e('return None')
        elif len(xs) == 1:
            self.e('return ' + xs[0])
        else:
            self.e('return (%s)' % ', '.join(xs))

    def i_select(self, ins, bi, b):
        xs = []
        for st in ins['st']:
            et = st['et']
            self.w.ns['ZF%d' % et] = self.w.zerof(et)
            xs.append('(%s, %s, %r, ZF%d), ' % (self.v(st['x']), 'None' if st['y'] is None else self.v(st['y']),
                                            st['y'] is not None, et))
        self.set(ins, 'W.select((%s), %r)' % (''.join(xs), ins['block']))

    def i_send(self, ins, bi, b):
        self.e('W.chan_send(%s, %s)' % (self.v(ins['x']), self.v(ins['y'])))

    def i_slice(self, ins, bi, b):
        self.set(ins, 'slice_(%s, %s, %s, %s, %r)' % (self.v(ins['x']), self.v(ins['lo']), self.v(ins['hi']),
                                                      self.v(ins['max']), self.w.kind(ins['xt']) == 'str'))

    def i_store(self, ins, bi, b):
        self.e('store(%s, %s)' % (self.v(ins['x']), self.v(ins['y'])))

    def i_assert(self, ins, bi, b):
        at = ins['at']
        if self.w.kind(at) == 'iface':
            self.set(ins, 'W.assert_iface(%s, %d, %r)' % (self.v(ins['x']), at, ins['ok']))
        else:
            self.w.ns['ZF%d' % at] = self.w.zerof(at)
            self.set(ins, 'W.assert_type(%s, %d, ZF%d, %r)' % (self.v(ins['x']), at, at, ins['ok']))


def _unsup(self, what, *a):
    raise Unsupported(what)


def _callv(self, f, *a):
    if f is None:
        rt.nilderef()
    return f(*a)


def _mkslice(self, z, n, c):
    n, c = rt.concr(n), rt.concr(c)
    if n < 0 or n > c:
        raise GoPanic(None, 'makeslice: len out of range')
    if c > 1 << 20:
        raise Unsupported('huge slice')
    return Slice([z() for _ in range(c)], 0, n, c)


def _s2a(self, x, n):
    if rt.concr(rt.slen(x)) < n:
        raise GoPanic(None, 'cannot convert slice to array pointer')
    if n == 0:
        return Ptr([[]], 0)
    if x.off == 0 and len(x.a) == n:
        return Ptr([x.a], 0)
    raise Unsupported('slice to array pointer of a part')


def _b_min(self, *a):
    r = a[0]
    for x in a[1:]:
        r = x if rt.truth(x < r) else r
    return r


def _b_max(self, *a):
    r = a[0]
    for x in a[1:]:
        r = x if rt.truth(x > r) else r
    return r


def _b_clear(self, m):
    m.d.clear()


class Chan(rt.PyObj):
    """a channel; what a goroutine does is done as a whole when the others wait for it"""

    def __init__(self, n):
        self.n = rt.concr(n)
        self.q = []
        self.closed = False


def _go(self, f, a):
    self.goroutines.append((f, a))


def _run_others(self):
    if not self.goroutines:
        return False
    f, a = self.goroutines.pop(0)
    f(*a)
    return True


def _ready(c, send):
    if c is None:
        return False
    if send:
        if c.closed:
            raise GoPanic(None, 'send on closed channel')
        return len(c.q) < c.n
    return bool(c.q) or c.closed


def _select(self, states, block):
    while True:
        for i, (c, v, send, z) in enumerate(states):
            if _ready(c, send):
                ok = True
                r = None
                if send:
                    c.q.append(v)
                elif c.q:
                    r = c.q.pop(0)
                else:
                    ok, r = False, z()
                return (i, ok) + tuple(r if j == i else s[3]() for j, s in enumerate(states) if not s[2])
        if not block:
            return (-1, False) + tuple(s[3]() for s in states if not s[2])
        if not _run_others(self):
            raise Unsupported('all goroutines wait')


def _recv(self, c, ok, z):
    r = _select(self, ((c, None, False, z),), True)
    return (r[2], r[1]) if ok else r[2]


def _send(self, c, v):
    _select(self, ((c, v, True, None),), True)


def _close(self, c):
    if c is None or c.closed:
        raise GoPanic(None, 'close of a channel')
    c.closed = True


World.unsup = _unsup
World.callv = _callv
World.mkslice = _mkslice
World.s2a = _s2a
World.b_min = _b_min
World.b_max = _b_max
World.b_clear = _b_clear
World.go = _go
World.run_others = _run_others
World.select = _select
World.chan_recv = _recv
World.chan_send = _send
World.b_close = _close
