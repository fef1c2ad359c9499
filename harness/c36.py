"""C36: what a transaction costs and what it leaves."""
from symex.api import unit
from gosym.api import GoHarness

PROPERTY = 'C36'
G = GoHarness('tx')


def case(rev=6, own=0, blocked=0, data=0, orders=0):
    return dict(rev=rev, own=own, blocked=blocked, data=data, orders=orders)


@unit([case(), case(own=1), case(blocked=1), case(data=1), case(rev=0)], covers=['failure'])
def transfer(ctx, **a):
    G.run(ctx, 'Transfer', **a)
