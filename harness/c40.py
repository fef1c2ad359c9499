"""C40: the pool offers the transactions that can get into a block."""
from symex.api import unit
from gosym.api import GoHarness

PROPERTY = 'C40'
G = GoHarness('pool')


@unit([dict(txs=2)], thorough_cases=[dict(txs=3)], covers=['candidates', 'dropped'])
def candidates(ctx, **a):
    G.run(ctx, 'Candidates', **a)


@unit([dict(txs=4, removed=1, again=0), dict(txs=3, removed=2, again=1)],
      thorough_cases=[dict(txs=5, removed=1, again=1)], covers=['ordered'])
def order(ctx, **a):
    G.run(ctx, 'Order', **a)


@unit([dict(txs=3)], thorough_cases=[dict(txs=4)], covers=['limited'])
def limits(ctx, **a):
    G.run(ctx, 'Limits', **a)


@unit([dict(steps=3, slot=2), dict(steps=3, slot=1)], thorough_cases=[dict(steps=4, slot=2)], covers=['known'])
def dropped(ctx, **a):
    G.run(ctx, 'Dropped', **a)
