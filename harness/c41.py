"""C41: a block is executed as its transactions say, in their order, and its fees reach the treasury."""
from symex.api import unit
from gosym.api import GoHarness

PROPERTY = 'C41'
G = GoHarness('blk')


def case(rev=1, txs=2, level=1, trouble=0, validated=0):
    return dict(rev=rev, txs=txs, level=level, trouble=trouble, validated=validated)


@unit([case()], covers=['success', 'failure'])
def block(ctx, **a):
    G.run(ctx, 'Block', **a)
