"""Arguments of the Go units of the economy."""


def case(rev=6, period=7, cycle=3, active=0, private=0, company=0, lo=1000, rewards=0, funds=0, usdt=10, poor=0,
         num=0, denom=0, **kw):
    return dict(rev=rev, period=period, cycle=cycle, active=active, private=private, company=company,
                lo=lo, rewards=rewards, funds=funds, usdt=usdt, poor=poor, num=num, denom=denom, **kw)
