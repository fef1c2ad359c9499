"""C24: coins are created by the schedule of the issue and in no other way."""
from symex.api import unit
from gosym.api import GoHarness
from .goeco import case

PROPERTY = 'C24'
G = GoHarness('eco')


@unit([case(first=1), case(first=0), case(active=2, first=1, cycle=1), case(rev=0, first=1, cycle=360, period=43200)],
      covers=['accepted', 'refused'])
def base(ctx, **a):
    G.run(ctx, 'Base', **a)


@unit([case(), case(cycle=1, period=1), case(rev=0, cycle=360, period=43200)])
def issue(ctx, **a):
    G.run(ctx, 'Issue', **a)


@unit([case(), case(period=1), case(period=43200)])
def platform(ctx, **a):
    G.run(ctx, 'Platform', **a)


@unit([case(first=1), case(first=0)])
def garbled(ctx, **a):
    G.run(ctx, 'Garbled', **a)
