"""C29: transfers keep the sum of balances; issues and burns change the supply alike."""
from symex.api import unit
from gosym.api import GoHarness
from .goeco import case

PROPERTY = 'C29'
G = GoHarness('eco')


@unit([dict(rev=r, op=o, same=s) for r in (0, 6) for o in (0, 1, 2) for s in (0, 1)])
def money(ctx, **a):
    G.run(ctx, 'Money', **a)


@unit([case(first=f, active=1) for f in (0, 1)])
def query(ctx, **a):
    G.run(ctx, 'Query', **a)
