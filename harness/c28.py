"""C28: the funds at the end of a term."""
from symex.api import unit
from gosym.api import GoHarness
from .goeco import case

PROPERTY = 'C28'
G = GoHarness('eco')


@unit([case(active=a, rewards=r, funds=f, lo=lo) for a, r, f, lo in
       ((0, 1, 0, 0), (2, 1, 64, 1000), (2, 2, 8, 0), (0, 0, 1 + 2 + 4, 0), (0, 0, 16 + 32 + 8, 0), (1, 1, 4 + 16 + 128, 1000))])
def boundary(ctx, **a):
    G.run(ctx, 'Boundary', **a)
