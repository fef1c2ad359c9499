"""C33: the active validators of a term."""
from symex.api import unit
from gosym.api import GoHarness
from .goval import case

PROPERTY = 'C33'
G = GoHarness('val')


@unit([case(count=c, main=m, sub=s, active=a, states=st, keys=k, decentral=d, rev=r) for c, m, s, a, st, k, d, r in
       ((3, 1, 3, 3, 0, 0, 1, 6), (3, 1, 3, 2, 1, 0, 1, 6), (2, 0, 3, 2, 1, 0, 1, 4), (3, 2, 2, 2, 0, 1, 1, 6),
        (2, 3, 1, 2, 0, 0, 0, 4), (2, 1, 2, 1, 0, 0, 0, 3), (4, 1, 2, 2, 0, 0, 0, 6), (1, 0, 1, 1, 0, 1, 1, 6),
        (2, 3, 1, 1, 0, 1, 1, 6))] + [case(count=2, main=1, sub=2, active=1, alien=1),
       case(count=2, main=1, sub=2, active=1, alien=1, decentral=0)],
      covers=['before', 'selected'])
def select(ctx, **a):
    G.run(ctx, 'Select', **a)
