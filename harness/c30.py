"""C30: the registry of planets and their managers."""
from symex.api import unit
from gosym.api import GoHarness
from .gogov import case

PROPERTY = 'C30'
G = GoHarness('gov')


@unit([case(step=1, fresh=0, old=0), case(step=9, fresh=1, old=1), case(rev=1, step=1, fresh=0, old=1)],
      covers=['registered', 'unregistered', 'transferred'])
def planets(ctx, **a):
    G.run(ctx, 'Planets', **a)


@unit([case(managers=n) for n in (0, 1, 2, 3)], covers=['added', 'removed'])
def managers(ctx, **a):
    G.run(ctx, 'Managers', **a)
