"""C26: a planet is offered its share once a term."""
from symex.api import unit
from gosym.api import GoHarness
from .goeco import case

PROPERTY = 'C26'
G = GoHarness('eco')


@unit([case(active=a, company=c, poor=p, rewards=r, funds=f) for a, c, p, r, f in
       ((2, 0, 0, 1, 2), (2, 1, 0, 1, 2), (1, 1, 1, 3, 2), (3, 0, 0, 1, 0), (3, 1, 0, 0, 2))],
      covers=['offered', 'refused'])
def report(ctx, **a):
    G.run(ctx, 'Report', **a)
