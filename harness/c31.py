"""C31: the registry of validators."""
from symex.api import unit
from gosym.api import GoHarness
from .goval import case

PROPERTY = 'C31'
G = GoHarness('val')


@unit([case(), case(rev=4, sub=0, main=2, active=2)], covers=['registered'])
def register(ctx, **a):
    G.run(ctx, 'Register', **a)


@unit([case(), case(rev=4, sub=0, main=2, active=2), case(main=0, sub=3, active=2, shift=1),
       case(states=1, main=1, sub=2, active=3)], covers=['unregistered'])
def unregister(ctx, **a):
    G.run(ctx, 'Unregister', **a)


@unit([case(), case(rev=4, sub=1, main=2, active=2), case(main=0, sub=3, active=2, shift=1),
       case(main=1, sub=1, active=1, alien=1), case(rev=5, main=1, sub=1, active=1, alien=1)], covers=['changed'])
def key(ctx, **a):
    G.run(ctx, 'Key', **a)
