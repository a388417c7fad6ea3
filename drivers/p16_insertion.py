import drv, logging
import numpy as np
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.distrib.asynchronous import greedy_insert_into_pop, tournament_insert_into_pop
R = drv.Rec()
logging.disable(logging.CRITICAL)
RULE = dict(greedy=greedy_insert_into_pop, tournament=tournament_insert_into_pop)


def mkind(v, mx, style, prob):
    def f(x):
        if x[0] == drv.NAN:
            raise ValueError("planned")
        return [float, int, np.float64][style % 3](x[0])
    if style % 4 == 3 and v != drv.NAN:
        x = Individual(np.array([v]), IdentityDecoder(), prob)      # has no viability mark: counts as viable
    else:
        x = [DistributedIndividual, RobustIndividual][style % 2](np.array([v]), IdentityDecoder(), prob)
    x.evaluate()
    return x


def hist(g, j, start=()):
    R.seed("p16", j)
    calls = []

    def f(x):
        if x[0] == drv.NAN:
            raise [ValueError, RuntimeError, ZeroDivisionError][j % 3]("planned")
        return [float, int, np.float64][j % 3](x[0])
    prob = FunctionProblem(f, maximize=g["max"])
    inds = [mkind(v, g["max"], j + k, prob) for k, v in enumerate(list(start) + g["arr"])]
    idx = {id(x): k + 1 for k, x in enumerate(inds)}
    pop = list(inds[:len(start)])
    pop0 = [idx[id(x)] for x in pop]
    pops = []
    snap = [(x.uuid, x.genome.tolist(), repr(x.fitness)) for x in inds]
    for x in inds[len(start):]:
        RULE[g["rule"]](x, pop, g["cap"])
        pops.append([idx.get(id(y), 0) for y in pop])
    same = snap == [(x.uuid, x.genome.tolist(), repr(x.fitness)) for x in inds]
    return dict(pop0=pop0, pops=pops, val=[drv.num(x.fitness) for x in inds], viable=[bool(getattr(x, "is_viable", True)) for x in inds], same=same, base=len(start))


for j, g in enumerate(R.gen()):
    R.case("hist", hist, g, j, cap=g["cap"], max=g["max"], rule=g["rule"])
for j in range(3000 if R.thorough else 400):      # longer histories, wider values, initial populations
    rr = R.rng
    cap = rr.randint(1, 6)
    vs = [drv.NAN] + list(range(-4, 5)) + [drv.INF * 0 + 100]
    start = [rr.choice(vs) for _ in range(rr.randint(0, cap))]
    g = dict(arr=[rr.choice(vs) for _ in range(rr.randint(1, 12))], cap=cap, max=rr.random() < .5, rule=rr.choice(["greedy", "tournament"]))
    R.case("hist", hist, g, j + 7, start, cap=cap, max=g["max"], rule=g["rule"])

for j in range(150 if R.thorough else 25):        # large populations, long histories
    rr = R.rng
    cap = rr.choice([10, 25, 40])
    vs = [drv.NAN] * 3 + list(range(-40, 41)) + [5000, -5000]
    start = [rr.choice(vs) for _ in range(rr.choice([0, cap // 2, cap]))]
    g = dict(arr=[rr.choice(vs) for _ in range(60)], cap=cap, max=rr.random() < .5, rule=rr.choice(["greedy", "tournament"]))
    R.case("hist", hist, g, j + 7, start, cap=cap, max=g["max"], rule=g["rule"])


def freq(n, cap, mx, nan):
    prob = FunctionProblem(lambda x: float(x[0]) if x[0] != drv.NAN else 1 / 0, maximize=mx)
    counts = [0] * cap
    base = [mkind(drv.NAN if nan and k % 2 else k, mx, 0, prob) for k in range(cap)]
    new = mkind(1000 if mx else -1000, mx, 0, prob)
    for _ in range(n):
        pop = list(base)
        tournament_insert_into_pop(new, pop, cap)
        counts[[k for k in range(cap) if pop[k] is not base[k]][0]] += 1
    return dict(counts=counts)


N = 20000 if R.thorough else 4000
for cap in (2, 3, 5, 12):
    for mx in (True, False):
        R.case("freq", freq, N, cap, mx, cap == 3, n=N, tol=30 if R.thorough else 60, limit=120)
for cap in (17, 50):
    R.case("freqrare", freq, 1100 * cap, cap, cap == 17, False, n=1100 * cap, limit=120)
R.close()
