"""SCOREs driven by a script that the harness supplies for each run."""
from iconservice import *

CTX = [None]                 # script of the current run: function(score, method name, *arguments)


class Callee(InterfaceScore):
    @interface
    def foo(self, a: int, b: bytes) -> int:
        pass

    @interface
    def bar(self) -> int:
        pass


class Scripted(IconScoreBase):
    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self.database = db
        self.var = VarDB('var', db, value_type=bytes)
        self.num = VarDB('num', db, value_type=int)
        self.dic = DictDB('dic', db, value_type=bytes)
        self.arr = ArrayDB('arr', db, value_type=bytes)

    def on_install(self) -> None:
        return CTX[0](self, 'on_install')

    def on_update(self) -> None:
        return CTX[0](self, 'on_update')

    @external
    def run(self) -> int:
        return CTX[0](self, 'run')

    @external(readonly=True)
    def view(self) -> int:
        return CTX[0](self, 'view')

    @payable
    @external
    def pay(self) -> int:
        return CTX[0](self, 'pay')

    @external
    def echo(self, a: int) -> int:
        return CTX[0](self, 'echo', a)

    @external(readonly=True)
    def vecho(self, a: int) -> int:
        return CTX[0](self, 'vecho', a)

    @external
    def typed(self, i: int = None, s: str = None, b: bytes = None, t: bool = None, a: Address = None) -> int:
        return CTX[0](self, 'typed', i, s, b, t, a)

    @external
    def two(self, p: int, q: str = 'dflt') -> int:
        return CTX[0](self, 'two', p, q)

    @payable
    def fallback(self) -> None:
        return CTX[0](self, 'fallback')

    @payable
    def odd(self) -> int:
        return CTX[0](self, 'odd')

    @eventlog(indexed=1)
    def Ev(self, a: int, b: bytes):
        pass

    @eventlog
    def Ev0(self):
        pass

    @eventlog(indexed=3)
    def Ev5(self, i: int, s: str, b: bytes, t: bool, a: Address):
        pass

    @eventlog(indexed=2)
    def EvD(self, s: str = 'x', i: int = 7):
        pass

    @eventlog(indexed=1)
    def EvZ(self, i: int = 0, s: str = '', b: bytes = b'', t: bool = False, a: Address = None):
        pass

    def hidden(self) -> int:
        return CTX[0](self, 'hidden')

    def _private(self) -> int:
        return CTX[0](self, '_private')


class Plain(IconScoreBase):
    """no payable fallback"""

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self) -> None:
        return CTX[0](self, 'on_install')

    def on_update(self) -> None:
        return CTX[0](self, 'on_update')

    @external
    def run(self) -> int:
        return CTX[0](self, 'run')

    def fallback(self) -> None:
        return CTX[0](self, 'fallback')


class Heir(Scripted):
    """inherits a contract, redefines and adds methods"""

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self) -> None:
        return CTX[0](self, 'on_install')

    @external
    def run(self) -> int:
        return CTX[0](self, 'run')

    @external
    def sub(self) -> int:
        return CTX[0](self, 'sub')

    @payable
    @external
    def subpay(self) -> int:
        return CTX[0](self, 'subpay')

    def helper(self) -> int:
        return CTX[0](self, 'helper')


INIT = [None]                # what the constructor of Curious does: function(score)


class Curious(IconScoreBase):
    """a contract whose constructor does things"""

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self.database = db
        self.var = VarDB('var', db, value_type=bytes)
        self.num = VarDB('num', db, value_type=int)
        self.dic = DictDB('dic', db, value_type=bytes)
        self.arr = ArrayDB('arr', db, value_type=bytes)
        if INIT[0] is not None:
            INIT[0](self)

    def on_install(self) -> None:
        pass

    def on_update(self) -> None:
        pass

    @external
    def run(self) -> int:
        return CTX[0](self, 'run')

    @eventlog(indexed=1)
    def Ev(self, a: int, b: bytes):
        pass
