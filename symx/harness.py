"""Registry of harnesses: functions run over symbolic inputs (SymCtx) and replayed on the real code (ConcCtx)."""
REGISTRY = {}   # property id -> list of Harness


class Harness:
    def __init__(self, prop, fn, cases, bounds, rel, runs, budget, heavy, warm):
        self.prop, self.fn, self.cases, self.bounds = prop, fn, cases, bounds
        self.name = fn.__name__
        self.rel, self.runs, self.budget, self.heavy = rel, runs, budget, heavy
        self.warm = warm

    def case_list(self, tier):
        c = self.cases(tier) if callable(self.cases) else self.cases
        return list(c)


def harness(prop, cases=((),), bounds='', rel=2e-7, runs=1, budget=15.0, heavy=False, warm=True):
    """cases: list (or function of the tier giving a list) of argument tuples; bounds: what is fixed and what is symbolic."""
    def deco(fn):
        h = Harness(prop, fn, cases, bounds, rel, runs, budget, heavy, warm)
        REGISTRY.setdefault(prop, []).append(h)
        return fn
    return deco


def find(prop, name):
    for h in REGISTRY.get(prop, []):
        if h.name == name:
            return h
    raise KeyError((prop, name))
