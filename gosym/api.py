"""Units whose body is Go code: executed symbolically from its SSA form, or natively on given inputs."""
import os
import tempfile

from . import link

HARNESSES = {}


class GoHarness:
    def __init__(self, name, **opts):
        self.name = name
        self.opts = opts
        self.session = None
        self.world = None
        HARNESSES[name] = self
        d = os.environ.get('GOSYM_DIR_' + name)
        self.dir = d
        if d is None and not concrete_process():
            self.start()

    def start(self):
        from . import lib, gen
        self.session = link.Session(self.name)
        os.environ['GOSYM_DIR_' + self.name] = self.dir = self.session.dir
        w = self.world = gen.World(link.Client(self.session.sock), lib.INTR, lib.PREFIX, link.MODULE)
        w.state0.update(self.opts)
        lib.install(w)
        w.start()

    def binary(self):
        if self.dir is None:
            self.session = link.Session(self.name, server=False)
            self.dir = self.session.dir
        if self.session is not None:
            self.session.wait_native()
        return self.dir + '/native'

    def run(self, ctx, unit, **args):
        if not ctx.symbolic:
            from symex.concctx import AssumptionFailed
            # the order of maps cannot be given to a native run: try until it happens
            for _ in range(60 if any(k.startswith('map order') for k in ctx.inputs) else 1):
                r = link.run_native(self.binary(), unit, args, ctx.inputs)
                if r['failures']:
                    break
            ctx.failures += r['failures'] or []
            ctx.observed += [tuple(x) for x in r['observed'] or []]
            if r['assume']:
                raise AssumptionFailed()
            return
        from symex import core
        from . import rt
        from symex.api import HarnessError
        w = self.world
        w.reset()
        w.ctx, w.args, rt.CTX = ctx, args, ctx
        w.called.clear()
        path = link.MODULE + '/zz/' + self.name
        try:
            w.func(path, unit)()
        except (TypeError, AttributeError, KeyError, IndexError, NameError, RecursionError, ValueError) as ex:
            import traceback
            raise HarnessError(''.join(traceback.format_exception(ex)[-8:]))
        finally:
            fs = core.engine().functions
            for i in w.called:
                n = w.fname(i)['name']
                if link.MODULE in n and '/zz/' not in n:
                    fs.add('go:' + n.replace(link.MODULE + '/', ''))


def concrete_process():
    import sys
    return 'symex.replay' in sys.modules or os.path.basename(sys.argv[0]) == 'replay.py'


def finish():
    for h in HARNESSES.values():
        if h.session is not None:
            h.session.wait_native()
