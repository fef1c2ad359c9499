"""Arguments of the Go units of the system's contract."""


def case(rev=6, **kw):
    return dict(rev=rev, **kw)
