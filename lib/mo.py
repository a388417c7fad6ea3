"""Builders for multi-objective drivers."""
import math
import numpy as np
import drv
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.multiobjective.problems import MultiObjectiveProblem


class VecProblem(MultiObjectiveProblem):
    def __init__(self, dirs, fn=None):
        super().__init__(maximize=dirs)
        self.fn = fn

    def evaluate(self, ph, *a, **k):
        return self.fn(ph) if self.fn else np.array(ph, dtype=float)


SCALE = [1, 1e-3, 1e5, 2.0 ** -60]


def pop_of(vecs, dirs, style=0, cls=Individual):
    """fitness vectors as given (float or int), or scaled: neither ranks nor crowding distances depend on the scale"""
    p = VecProblem(tuple(dirs) if style % 2 else list(dirs))
    out = []
    for k, v in enumerate(vecs):
        x = cls(np.array(v), IdentityDecoder(), p)
        sc = SCALE[style // 4 % 4]
        x.fitness = np.array(v, dtype=[float, int][style // 2 % 2]) if sc == 1 else np.array(v, dtype=float) * sc
        x.scale = sc
        out.append(x)
    return out


def dist(x):
    d = getattr(x, "distance", None)
    if d is None:
        return drv.NONE
    if math.isinf(d):
        return drv.INF if d > 0 else drv.NINF
    v = float(d) * 2520
    return int(round(v)) if not math.isnan(v) and abs(v) < 900000 else drv.ODD


def rank(x):
    return drv.num(getattr(x, "rank", None))


def vec(x):
    return [int(round(v / getattr(x, "scale", 1))) for v in x.fitness]


def distinct_vecs(rr, n, m, top):
    """n vectors without ties in any objective"""
    cols = [rr.sample(range(top), n) for _ in range(m)]
    return [[c[k] for c in cols] for k in range(n)]


def rand_vecs(rr, n, m, hi):
    return [[rr.randint(0, hi) for _ in range(m)] for _ in range(n)]
