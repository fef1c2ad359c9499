"""C25: the public treasury can always pay what it owes."""
from symex.api import unit
from gosym.api import GoHarness
from .goeco import case

PROPERTY = 'C25'
G = GoHarness('eco')
BASE, REPORT, CLAIM, UNREGISTER, WITHDRAW, REGISTER, OWNER = range(7)


@unit([case(op=BASE, planets=1, active=a, rewards=r, funds=f) for a, r, f in
       ((0, 1, 0), (2, 1, 0), (2, 7, 0), (1, 2, 3), (3, 4, 32))], covers=['done'])
def boundary(ctx, **a):
    G.run(ctx, 'Solvency', **a)


@unit([case(op=REPORT, planets=2, active=a, company=c, poor=p, rewards=r, funds=f) for a, c, p, r, f in
       ((2, 0, 0, 1, 2), (2, 1, 0, 1, 2), (1, 1, 1, 3, 0), (3, 1, 0, 4, 2))], covers=['done', 'refused'])
def report(ctx, **a):
    G.run(ctx, 'Solvency', **a)


@unit([case(op=CLAIM, planets=2, active=1, private=p, num=n, denom=d, rewards=r) for p, n, d, r in
       ((0, 0, 0, 0), (1, 0, 0, 0), (1, 7, 24, 1), (1, 24, 24, 0))], covers=['done'])
def claim(ctx, **a):
    G.run(ctx, 'Solvency', **a)


@unit([case(op=o, planets=2, active=1, rewards=r, lo=lo) for o, r, lo in
       ((UNREGISTER, 4, 0), (UNREGISTER, 0, 1000), (WITHDRAW, 4, 0), (WITHDRAW, 7, 1000), (REGISTER, 0, 1000), (OWNER, 0, 1000))],
      covers=['done'])
def registry(ctx, **a):
    G.run(ctx, 'Solvency', **a)
