import warnings
import drv
import numpy as np
from leap_ec.decoder import IdentityDecoder
from leap_ec.individual import Individual
from leap_ec.landscape_features.exploratory import ELAConvexity
from leap_ec.problem import FunctionProblem
from leap_ec.representation import Representation
warnings.simplefilter("ignore")
R = drv.Rec()
rr = R.rng
F = dict(linear=lambda v: 3 * v[0] - 2 * v[1] + 1, convex=lambda v: v[0] ** 2 + 2 * v[1] ** 2, concave=lambda v: 4 - v[0] ** 2 - v[1] ** 2, step=lambda v: float(int(v[0]) + int(2 * v[1])))


class Shift(IdentityDecoder):
    """The phenome differs from the genome."""
    def decode(self, genome, *a, **k):
        return np.asarray(genome) + 1


def m(v):
    return int(round(1000 * float(v)))


def tests(design, land, n, shift, mx, style):
    calls = [0]

    def fn(ph):
        calls[0] += 1
        return float(F[land](ph))
    prob = FunctionProblem(fn, mx)
    dec = Shift() if shift else IdentityDecoder()
    rep = Representation(initialize=lambda: np.array([0., 0.]), decoder=dec)
    inds = [Individual(np.array(g, dtype=float if style % 2 else int), decoder=dec, problem=prob) for g in design]
    inds = Individual.evaluate_population(inds)
    calls[0] = 0
    snap = [(id(x), x.genome.tolist(), float(x.fitness)) for x in inds]
    e = ELAConvexity(prob, rep, inds, num_convexity_tests=n) if n != 1000 else ELAConvexity(prob, rep, design_individuals=inds)
    cnt = calls[0]
    idx = {id(x): k + 1 for k, x in enumerate(inds)}
    P, C, D = e.pairs, e.combinations, e.deltas
    T = [dict(x=idx.get(id(x), 0), y=idx.get(id(y), 0), p=[m(v) for v in p.genome], f=m(f), fp=m(F[land](np.asarray(p.genome) + (1 if shift else 0)))) for (x, y), (f, p) in zip(P, C)]
    fresh = all(abs(float(p.fitness) - F[land](np.asarray(p.genome) + (1 if shift else 0))) < 1e-9 and id(p) not in idx for f, p in C)
    ths = [-.0000000001, -.5, -1.5, -.1]
    o = dict(tests=T, npairs=len(P), ndeltas=len(D), calls=cnt, deltas=[m(d) for d in D], fresh=bool(fresh), fit=[drv.num(x.fitness) for x in inds],
             convex=[[m(t), m(e.convex_p(t))] for t in ths[1:]], linear=[[m(t), m(e.linear_p(threshold=t))] for t in ths[1:]],
             dev=m(e.linear_deviation()), adev=m(e.linear_deviation_abs()), dconvex=m(e.convex_p()), dlinear=m(e.linear_p()))
    o["same"] = snap == [(id(x), x.genome.tolist(), float(x.fitness)) for x in inds] and calls[0] == cnt
    e.pairs.clear(), e.deltas.clear(), e.combinations.clear()
    o["copies"] = len(e.pairs) == n and len(e.deltas) == n and len(e.combinations) == n
    t = e.results_table("fun") if style % 2 else e.results_table()
    r = t.iloc[0]
    o["table"] = [m(r["P(convex)"]), m(r["P(linear)"]), m(r["Linear_deviation"]), m(r["Linear_deviation_abs"])]
    o["tname"] = bool(len(t) == 1 and (r["Function"] == "fun" if style % 2 else r["Function"] == str(prob)))
    return o


def weights(n):
    prob = FunctionProblem(lambda v: float(v[0]), True)
    rep = Representation(initialize=lambda: np.array([0.]), decoder=IdentityDecoder())
    inds = Individual.evaluate_population([Individual(np.array([float(v)]), decoder=IdentityDecoder(), problem=prob) for v in (0, 1, 3)])
    e = ELAConvexity(prob, rep, inds, num_convexity_tests=n)
    q = [0] * 4
    for (x, y), (f, p) in zip(e.pairs, e.combinations):
        a = (p.genome[0] - y.genome[0]) / (x.genome[0] - y.genome[0])
        q[min(3, max(0, int(4 * a)))] += 1
    return dict(quart=q)


def threshold(t, which):
    prob = FunctionProblem(lambda v: float(v[0]), True)
    rep = Representation(initialize=lambda: np.array([0.]), decoder=IdentityDecoder())
    inds = Individual.evaluate_population([Individual(np.array([float(v)]), decoder=IdentityDecoder(), problem=prob) for v in (0, 1, 3)])
    e = ELAConvexity(prob, rep, inds, num_convexity_tests=3)
    return dict(refused=drv.raises(getattr(e, which), t) != "")


for k, g in enumerate(R.gen()):
    R.seed("t", k)
    n = 120 if k % 10 else 200
    n = n if len(g["design"]) <= 3 else 200
    R.case("tests", tests, g["design"], g["land"], n, k % 3 == 0, k % 2 == 0, k // 2, design=g["design"], land=g["land"], n=n)
for k in range(24 if R.thorough else 6):       # larger designs
    R.seed("big", k)
    d = [[rr.randint(-6, 6), rr.randint(-6, 6)] for _ in range(rr.choice([8, 15]))]
    d = [list(t) for t in dict.fromkeys(map(tuple, d))]
    land = list(F)[k % 4]
    R.case("tests", tests, d, land, 900, k % 3 == 0, k % 2 == 0, k // 2, design=d, land=land, n=900)
R.seed("default")
R.case("tests", tests, [[0, 0], [1, 2], [3, 1], [4, 4]], "convex", 1000, False, False, 1, design=[[0, 0], [1, 2], [3, 1], [4, 4]], land="convex", n=1000)
for k in range(3):
    R.seed("w", k)
    R.case("weights", weights, 4000, n=4000)
def exact(v, n):
    """fitness 0 on the design, v between: every deviation is exactly v"""
    prob = FunctionProblem(lambda x: 0. if float(x[0]).is_integer() else v, True)
    rep = Representation(initialize=lambda: np.array([0.]), decoder=IdentityDecoder())
    inds = Individual.evaluate_population([Individual(np.array([float(q)]), decoder=IdentityDecoder(), problem=prob) for q in (0, 1, 3)])
    e = ELAConvexity(prob, rep, inds, num_convexity_tests=n)
    ths = [-.5, -1.5, -2., -2.5, -4.]
    hit = [m(d == v) for d in e.deltas].count(1000)
    return dict(hit=hit, shares=[[int(10 * t), m(e.convex_p(t)), m(e.linear_p(t))] for t in ths], dflt=[m(e.convex_p()), m(e.linear_p())])


for v, nm in ((-2., "-20"), (2., "20"), (0., "0"), (-1e-8, "small"), (1e-8, "small+"), (-1e-12, "tiny"), (1e-12, "tiny")):
    R.case("exact", exact, v, 40, size=nm, v=int(10 * v), n=40)
for t in (0, .1, 1):
    for w in ("convex_p", "linear_p"):
        R.case("threshold", threshold, t, w)
R.close()
