"""Nothing that is given to a computation is changed by it: the situations of all other checks, judged only by what the caller still holds."""
import importlib
from symx.harness import REGISTRY, find, harness
from props.util import *

PROPS = ['C%02d' % i for i in range(1, 43) if i != 37]
for _p in PROPS:
    importlib.import_module('props.' + _p)


def situations(tier):
    out = []
    for p in PROPS:
        for h in REGISTRY.get(p, []):
            n = len(h.case_list('quick'))
            for i in sorted({0, n // 2, n - 1} if tier != 'quick' else {0, n - 1}):
                out.append((p, h.name, i))
    return out


@harness('C37', cases=situations, budget=60, bounds='the first and last (thorough: also the middle) case of every harness of the other checks, within the bounds given there; '
         'arrays, coefficient sets and magnetograms handed over')
def arguments(ctx, prop, name, i):
    h = find(prop, name)
    try:
        h.fn(ctx, *h.case_list('quick')[i])
    except Exception:
        pass        # judged by the check of that property
    ctx.forget()
