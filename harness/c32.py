"""C32: the votes of validators."""
from symex.api import unit
from gosym.api import GoHarness
from .goval import case

PROPERTY = 'C32'
G = GoHarness('val')


@unit([case(sub=3, active=2, shift=1), case(states=1, sub=3, active=2), case(stranger=1, sub=2, active=2),
       case(main=0, sub=2, active=2, check=1), case(main=0, sub=3, active=2, keys=1), case(main=0, sub=4, active=2, check=1),
       case(main=0, sub=4, active=3, check=1), case(decentral=0, sub=1, active=2),
       case(check=0, sub=1, active=2)], covers=['penalty', 'two penalties'])
def votes(ctx, **a):
    G.run(ctx, 'Votes', **a)


@unit([case(main=1, sub=3, active=3, late=1, count=2), case(main=0, sub=3, active=2, count=2, late=1, shift=1),
       case(main=0, sub=2, active=2, count=2, late=1, decentral=0)], covers=['penalty'])
def first(ctx, **a):
    G.run(ctx, 'Select', **a)


@unit([case(main=0, sub=1, active=1), case(main=1, sub=0, active=1)], covers=['enabled', 'used up'])
def enable(ctx, **a):
    G.run(ctx, 'Enable', **a)


@unit([case(sub=1, active=1)])
def params(ctx, **a):
    G.run(ctx, 'Params', **a)
