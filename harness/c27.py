"""C27: the owner of a planet is paid what is not locked, and nobody else."""
from symex.api import unit
from gosym.api import GoHarness
from .goeco import case

PROPERTY = 'C27'
G = GoHarness('eco')


@unit([case(active=1, private=p, num=n, denom=d, caller=c, ids=i) for p, n, d, c, i in
       ((0, 0, 0, 0, 0), (0, 0, 0, 1, 0), (1, 0, 0, 0, 0), (1, 7, 24, 0, 1), (1, 24, 24, 1, 0), (1, 1, 10000, 0, 0), (1, 5, 9, 0, 2))])
def claim(ctx, **a):
    G.run(ctx, 'Claim', **a)
