"""C37: calls between contracts."""
from symex.api import unit
from gosym.api import GoHarness

PROPERTY = 'C37'
G = GoHarness('tx')


@unit([dict(rev=6, shape=i, orders=0) for i in range(14)],
      thorough_cases=[dict(rev=0, shape=i, orders=0) for i in (1, 4, 10)], covers=['success', 'failure'])
def frames(ctx, **a):
    G.run(ctx, 'Frames', **a)
