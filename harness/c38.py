"""C38: deposits for the fees of a contract."""
from symex.api import unit
from gosym.api import GoHarness

PROPERTY = 'C38'
G = GoHarness('tx')


def pay(kinds, pays=2, reload=1, price=12500000000, price2=12500000000, price3=12500000000):
    return dict(rev=6, kinds=kinds, pays=pays, reload=reload, price=price, price2=price2, price3=price3, orders=0)


@unit([pay(1), pay(2), pay(11), pay(12), pay(21), pay(22), pay(1, price2=7000000000, price3=20000000000), pay(2, price2=7)],
      thorough_cases=[pay(112, 2), pay(1, 3), pay(2, 3)], covers=['used up'])
def deposits(ctx, **a):
    G.run(ctx, 'Pay', **a)


def share(shape, *p, rev=6, price=3, system=0):
    p = (list(p) + [-1] * 4)[:4]
    return dict(rev=rev, shape=shape, price=price, system=system, orders=0,
                portion1=p[0], portion2=p[1], portion3=p[2], portion4=p[3])


@unit([share(0, 30), share(0, 100), share(0, 0), share(1, 50, 30), share(1, -1, 70), share(1, 50, 30, rev=2), share(5, 20, 50),
       share(0, 40, system=1), share(1, 40, 60, system=2), share(4, 50, 50, 25)],
      thorough_cases=[share(3, 10, 50, 40), share(13, 10, 20, 30, 40), share(10, 30, 10, 20, 50), share(3, -1, 50, 40, system=4)],
      covers=['shared', 'failure', 'refused'])
def sharing(ctx, **a):
    G.run(ctx, 'Sharing', **a)


def act(action, term=0, sharing=1):
    return dict(rev=6, action=action, term=term, sharing=sharing, orders=0)


@unit([act(i) for i in range(9)] + [act(i, term=1296000) for i in (0, 1, 2, 3, 4)] + [act(0, sharing=0), act(1, sharing=0)],
      covers=['added', 'withdrawn', 'refused'])
def transactions(ctx, **a):
    G.run(ctx, 'Deposits', **a)
