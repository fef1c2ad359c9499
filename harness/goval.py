"""Arguments of the Go units of the validators."""


def case(rev=6, period=7, main=1, sub=3, active=3, shift=0, count=3, check=2, keys=0, states=0, stranger=0, decentral=1,
         alien=0, late=0, **kw):
    return dict(rev=rev, period=period, main=main, sub=sub, active=active, shift=shift, count=count, check=check,
                keys=keys, states=states, stranger=stranger, decentral=decentral, alien=alien, late=late, **kw)
