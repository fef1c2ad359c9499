"""C39: no transaction gets into two blocks."""
from symex.api import unit
from gosym.api import GoHarness

PROPERTY = 'C39'
G = GoHarness('pool')


def case(group=1, txs=1, blocks=3, changes=0, raised=0, restart=0):
    return dict(group=group, txs=txs, blocks=blocks, changes=changes, raised=raised, restart=restart)


@unit([case(), case(group=0), case(changes=1), case(changes=1, restart=1, blocks=2), case(raised=1, restart=1, blocks=3),
       case(group=0, restart=1), case(txs=2, blocks=2), case(txs=2, blocks=1), case(group=0, txs=2, blocks=2)],
      thorough_cases=[case(blocks=4), case(changes=1, restart=1, blocks=3), case(txs=2, changes=1)],
      covers=['twice', 'final', 'out of time'])
def replay(ctx, **a):
    G.run(ctx, 'Replay', **a)


@unit([case()], covers=['final'])
def lowered(ctx, **a):
    G.run(ctx, 'Lowered', **a)


@unit([case()], covers=['crash', 'twice'])
def crash(ctx, **a):
    G.run(ctx, 'Crash', **a)
