"""What harnesses see.  The same harness file runs symbolically (solver) and concretely (replay)."""
UNITS = {}


class Unit:
    def __init__(self, fn, cases, tier, bounds, covers, budget, opts):
        self.fn, self.cases, self.tier, self.bounds = fn, cases, tier, bounds
        self.covers, self.budget, self.opts = covers, budget, opts
        self.name = fn.__name__


def unit(cases=None, tier='quick', bounds='', covers=(), budget=None, thorough_cases=None, **opts):
    def deco(fn):
        u = Unit(fn, cases if cases is not None else [{}], tier, bounds, covers, budget, opts)
        u.thorough_cases = thorough_cases
        UNITS[fn.__name__] = u
        return fn
    return deco


class HarnessError(Exception):
    pass
