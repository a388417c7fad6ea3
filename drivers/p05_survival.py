import copy
import drv
import numpy as np
from toolz import curry
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem
from leap_ec import ops

R = drv.Rec()


def pops(off, par, mx, key, conv):
    p = FunctionProblem(lambda x: 0, maximize=mx)
    out = []
    for j, vals in enumerate((off, par)):
        l = []
        for v in vals:
            x = Individual(np.array([j]), IdentityDecoder(), p)
            if key:
                x.score = v
                x.fitness = float((v * 7 + 3) % 5)   # unrelated to the key
            else:
                x.fitness = float("nan") if v == drv.NAN else conv(v)
            l.append(x)
        out.append(l)
    return out


def run(kind, off, par, mx, key, conv, call):
    O, P = pops(off, par, mx, key, conv)
    at = {id(x): k + 1 for k, x in enumerate(O + P)}
    O1, P1 = list(O), list(P)
    before = [(x.fitness, x.uuid, x.genome.tolist()) for x in O + P]
    res = call(O1, P1, (lambda x: x.score) if key else None)
    after = [(x.fitness, x.uuid, x.genome.tolist()) for x in O + P]
    same = all(repr(a) == repr(b) for a, b in zip(before, after))
    return dict(kept=[at.get(id(x), 0) for x in res], offlist=[at.get(id(x), 0) for x in O1], parlist=[at.get(id(x), 0) for x in P1], untouched=same)


CONVS = [int, float, np.float64]


def trunc(size, withpar, style):
    def call(o, p, key):
        kw = dict(size=size)
        if key:
            kw["key"] = key
        if withpar:
            kw["parents"] = p
        return ops.truncation_selection(**kw)(o) if style else ops.truncation_selection(o, **kw)
    return call


def elite(k, style):
    def call(o, p, key):
        kw = dict(parents=p, k=k)
        if key:
            kw["key"] = key
        if k == 1 and style:
            kw.pop("k")
        return ops.elitist_survival(**kw)(o) if style else ops.elitist_survival(o, **kw)
    return call


def insert(style):
    def call(o, p, key):
        kw = dict(parents=p)
        if key:
            kw["key"] = key
        return ops.insertion_selection(**kw)(o) if style else ops.insertion_selection(o, **kw)
    return call


def one(kind, g, k, key):
    off, par, mx = g["off"], g["par"], g["max"]
    if key:
        off, par = [3 if v == drv.NAN else v for v in off], [3 if v == drv.NAN else v for v in par]
    conv = CONVS[k % 3]
    st = dict(off=off, par=par, max=True if key else mx, key=key)
    if kind == "truncation":
        size, wp = (k // 3) % (len(off) + len(par) + 2), k % 2 == 0
        R.case(kind, run, kind, off, par, mx, key, conv, trunc(size, wp, k % 5), size=size, withpar=wp, **st)
    elif kind == "elitist":
        kk = (k // 2) % (len(par) + 2)
        R.case(kind, run, kind, off, par, mx, key, conv, elite(kk, k % 5), k=kk, **st)
    else:
        R.case(kind, run, kind, off, par, mx, key, conv, insert(k % 5), **st)


G = R.gen()
for k, g in enumerate(G):
    kinds = ["truncation", "elitist", "insertion"]
    if R.thorough:
        for kd in kinds:
            one(kd, g, k, (k // 4) % 3 == 0)
    else:
        one(kinds[k % 3], g, R.rng.randint(0, 10 ** 6), (k // 4) % 3 == 0)
for k in range(2000 if R.thorough else 300):
    V = [drv.NAN, 0, 1, 2, 3, 4, 5]
    g = dict(off=[R.rng.choice(V) for _ in range(R.rng.randint(1, 6))], par=[R.rng.choice(V) for _ in range(R.rng.randint(1, 5))], max=R.rng.random() < .5)
    one(["truncation", "elitist", "insertion"][k % 3], g, R.rng.randint(0, 10 ** 6), k % 4 == 0)
for k in range(600 if R.thorough else 90):      # larger populations, wider and mostly distinct values
    top = R.rng.choice([5, 40, 5000])
    V = lambda: drv.NAN if R.rng.random() < .07 else R.rng.randint(-top, top)
    no, npar = R.rng.choice([(30, 30), (60, 11), (7, 50), (41, 1), (1, 64), (25, 33), (100, 100)])
    if k % 3 == 2:
        no, npar = min(no, 40), min(npar, 40)
    g = dict(off=[V() for _ in range(no)], par=[V() for _ in range(npar)], max=R.rng.random() < .5)
    one(["truncation", "elitist", "insertion"][k % 3], g, R.rng.randint(0, 10 ** 6), (k // 3) % 4 == 0)


def slots(np_, mx, n, key, no=1):
    hits = [0] * np_
    off, par = ([9 - no + 1 + j for j in range(no)], [-9] * np_) if (mx or key) else ([no - 1 - j for j in range(no)], [9] * np_)
    for _ in range(n):
        O, P = pops(off, par, mx, key, float)
        r = ops.insertion_selection(O, P, key=(lambda x: x.score) if key else None)
        for s in range(np_):
            if r[s] is O[-1]:
                hits[s] += 1
    return dict(hits=hits)


for np_ in (1, 2, 3, 5):
    for mx in (True, False):
        R.case("insertion-slots", slots, np_, mx, 4000, np_ % 2 == 0, np=np_, n=4000, max=mx)
for np_, no in ((2, 3), (3, 8), (6, 7), (1, 5), (9, 4)):      # the last and best of several children
    R.case("insertion-slots", slots, np_, no % 2 == 0, 3000, no % 3 == 0, no, np=np_, n=3000, max=no % 2 == 0)


def reach(np_, mx, n):
    """a large population of parents: every quarter of it is reached alike"""
    hits = [0] * 4
    O, P = pops([9] if mx else [0], [-9] * np_ if mx else [9] * np_, mx, False, float)
    for _ in range(n):
        r = ops.insertion_selection(O, P)
        for s in range(np_):
            if r[s] is O[0]:
                hits[s * 4 // np_] += 1
    return dict(hits=hits)


for np_ in (40, 320):
    R.case("insertion-slots", reach, np_, np_ == 40, 3000, np=4, n=3000, max=np_ == 40)
R.close()
