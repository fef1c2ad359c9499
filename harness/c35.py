"""C35: who may call the system's contract, and the configuration of the network."""
from symex.api import unit
from gosym.api import GoHarness
from .gogov import case

PROPERTY = 'C35'
G = GoHarness('gov')


@unit([case(), case(rev=2), case(rev=0)], covers=['denied'])
def denied(ctx, **a):
    G.run(ctx, 'Denied', **a)


@unit([case(), case(rev=2)], covers=['read'])
def readers(ctx, **a):
    G.run(ctx, 'Readers', **a)


@unit([case()], covers=['set'])
def values(ctx, **a):
    G.run(ctx, 'Values', **a)


@unit([case(known=2, calls=1), case(known=3, calls=1), case(known=0, calls=1)],
      thorough_cases=[case(known=3, calls=2)], covers=['set'])
def costs(ctx, **a):
    G.run(ctx, 'Costs', **a)


@unit([case(deployers=2, calls=2), case(deployers=3, calls=1)], covers=['changed'])
def deployers(ctx, **a):
    G.run(ctx, 'Deployers', **a)


@unit([case(validators=1, members=0), case(validators=3, members=0), case(validators=2, members=1)],
      covers=['granted', 'revoked'])
def grant(ctx, **a):
    G.run(ctx, 'Grant', **a)


@unit([case()], covers=['given'])
def owner(ctx, **a):
    G.run(ctx, 'Owner', **a)


@unit([case(rev=r) for r in (0, 3, 6)], covers=['changed'])
def revision(ctx, **a):
    G.run(ctx, 'Revision', **a)
