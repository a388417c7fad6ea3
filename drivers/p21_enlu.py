import fakedask
import drv, mo, logging
import numpy as np
from leap_ec import ops
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.representation import Representation
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.multiobjective.asynchronous import ENLUInserter, steady_state_nsga_2
R = drv.Rec()
logging.disable(logging.CRITICAL)
rr = R.rng


def view(pop, ids, keep):
    return dict(pop=[ids.get(id(x), 0) for x in pop], rk=[mo.rank(x) for x in keep], ds=[mo.dist(x) for x in keep])


def insert(vecs, dirs, cap, style):
    inds = mo.pop_of(vecs, dirs, style, cls=[Individual, DistributedIndividual][style % 2])
    ids = {id(x): k + 1 for k, x in enumerate(inds)}
    ins, pop, steps = ENLUInserter(), [], []
    for k, x in enumerate(inds):
        ins(x, pop, cap)
        steps.append(dict(id=k + 1, **view(pop, ids, inds)))
    return dict(fit=[list(v) for v in vecs], steps=steps, ret=steps[-1]["pop"])


def asyncrun(vecs, dirs, init, cap, order, style):
    """the whole asynchronous multi-objective algorithm, completion order imposed"""
    ctx = {"leap": {"distrib": {"non_viable": 0}}}
    prob = mo.VecProblem(dirs, lambda ph: np.array(vecs[int(ph[0])], dtype=float))
    n = [0]

    def fresh():
        n[0] += 1
        return np.array([n[0] - 1])
    rep = Representation(initialize=fresh, individual_cls=DistributedIndividual, decoder=IdentityDecoder())
    seq = list(order)
    keep, ids, steps = [], {}, []

    def arrived(x):
        keep.append(x)
        ids[id(x)] = len(keep)

    def popped(pop):
        steps.append(dict(id=len(keep), **view(pop, ids, keep)))

    @ops.iteriter_op
    def retoken(it):
        while True:
            x = next(it)
            x.genome = fresh()
            x.fitness = None
            yield x
    cl = fakedask.Client(lambda pend: (seq.pop(0) if seq else 0) % len(pend))
    fakedask.ACTIVE[0] = True
    try:
        out = steady_state_nsga_2(cl, max_births=len(vecs) - init, init_pop_size=init, pop_size=cap, problem=prob, representation=rep,
                            offspring_pipeline=[ops.random_selection, ops.clone, retoken, ops.pool(size=1)], evaluated_probe=arrived, pop_probe=popped, context=ctx)
    except fakedask.Unsupported:
        return dict(kind="skipped")
    finally:
        fakedask.ACTIVE[0] = False
    return dict(fit=[mo.vec(x) for x in keep], steps=steps, ret=[ids.get(id(x), 0) for x in out or []])


for j, g in enumerate(R.gen()):
    R.case("enlu", insert, g["vecs"], g["dirs"], [1, 2, 3][j % 3], j, dirs=g["dirs"], cap=[1, 2, 3][j % 3])
W = [[1, 1, 5], [1, 1, 0], [2, 0, 0], [0, 2, 0], [2, 2, 1]]
for cap in (4, 5, 9):
    R.case("enlu", insert, W, [True] * 3, cap, 0, dirs=[True] * 3, cap=cap)
    R.case("enlu", insert, [[9 - v for v in w] for w in W], [False] * 3, cap, 1, dirs=[False] * 3, cap=cap)
for j in range(5000 if R.thorough else 700):
    m, n = rr.choice([1, 2, 2, 3, 3, 4]), rr.randint(2, 9)
    hi = rr.choice([1, 2, 4, 7])
    if hi <= 2:
        n = min(n, 6)
    dirs = [rr.random() < .5 for _ in range(m)]
    cap = rr.randint(1, n + 1)
    if hi <= 2 and m >= 3:
        cap = min(cap, 4)
    R.case("enlu", insert, mo.rand_vecs(rr, n, m, hi), dirs, cap, j, dirs=dirs, cap=cap)
for j in range(800 if R.thorough else 100):
    m, n = rr.choice([2, 2, 3]), rr.randint(3, 12)
    dirs = [rr.random() < .5 for _ in range(m)]
    cap = rr.randint(1, 6)
    R.case("enlu", asyncrun, mo.rand_vecs(rr, n, m, 7), dirs, rr.randint(1, min(4, n)), cap, [rr.randint(0, 5) for _ in range(n)], j, dirs=dirs, cap=cap)
for j in range(60 if R.thorough else 10):      # large populations, long histories, no ties
    m, n, cap = rr.choice([2, 2, 3, 5]), rr.choice([20, 35]), rr.choice([5, 12, 30])
    dirs = [rr.random() < .5 for _ in range(m)]
    R.case("enlu", insert, mo.distinct_vecs(rr, n, m, rr.choice([60, 5000])), dirs, cap, j, dirs=dirs, cap=cap)
    if j % 3 == 0:
        R.case("enlu", asyncrun, mo.distinct_vecs(rr, n, m, 5000), dirs, rr.randint(1, 9), cap, [rr.randint(0, 9) for _ in range(n)], j, dirs=dirs, cap=cap)
for j in range(30 if R.thorough else 6):      # many layers: chains, and chains with a few off the line
    m, n = rr.choice([1, 2, 3]), rr.choice([18, 30])
    cap = rr.choice([12, n, n + 1])
    dirs = [rr.random() < .5 for _ in range(m)]
    vs = [[3 * k if d else -3 * k for d in dirs] for k in range(n)]
    for v in vs[::5] if j % 2 and m > 1 else []:
        v[0] += rr.choice([-7, -4, 4, 7])
    rr.shuffle(vs)
    R.case("enlu", insert, vs, dirs, cap, j, dirs=dirs, cap=cap)
R.close()
