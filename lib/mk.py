"""Small builders used by several drivers."""
import numpy as np
import drv
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem

CONVS = [int, float, np.float64]


def pop_of(vals, mx=True, conv=float, cls=Individual, score=None):
    """Individuals with the given fitness ordinals (drv.NAN = failed)."""
    p = FunctionProblem(lambda x: 0, maximize=mx)
    out = []
    for k, v in enumerate(vals):
        x = cls(np.array([k]), IdentityDecoder(), p)
        x.fitness = float("nan") if v == drv.NAN else conv(v)
        if score is not None:
            x.score = score[k]
        out.append(x)
    return out


def where(pop):
    return {id(x): k + 1 for k, x in enumerate(pop)}


def pull(it, n):
    return [next(it) for _ in range(n)]
