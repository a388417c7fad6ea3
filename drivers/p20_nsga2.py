import copy
import drv, mo
import numpy as np
from leap_ec import ops
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.representation import Representation
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from leap_ec.multiobjective.ops import fast_nondominated_sort, rank_ordinal_sort, crowding_distance_calc, sort_by_dominance
R = drv.Rec()
FN = [fast_nondominated_sort, rank_ordinal_sort]
rr = R.rng


def crowd(vecs, dirs, style):
    pop = mo.pop_of(vecs, dirs, style)
    idx = {id(x): k + 1 for k, x in enumerate(pop)}
    FN[style % 2](pop)
    before = list(pop)
    rk = [mo.rank(x) for x in pop]
    out = crowding_distance_calc(pop)
    same = len(before) == len(pop) and all(a is b for a, b in zip(before, pop)) and [mo.vec(x) for x in pop] == [list(v) for v in vecs] and rk == [mo.rank(x) for x in pop]
    return dict(fit=[list(v) for v in vecs], out=[idx.get(id(x), 0) for x in out], rk=rk, ds=[mo.dist(x) for x in pop], same=same)


def sort(n, style):
    pop = mo.pop_of([[0, 0]] * n, [True, True])
    idx = {id(x): k + 1 for k, x in enumerate(pop)}
    for x in pop:
        x.rank = rr.randint(1, 3)
        x.distance = rr.choice([0, .5, 1.25, float("inf")])
    out = sort_by_dominance(pop)
    return dict(rk=[x.rank for x in pop], ds=[mo.dist(x) for x in pop], out=[idx.get(id(x), 0) for x in out])


def nsga(init, offs, dirs, start, maxgen, stopat, rank, style):
    ctx = {"leap": {"distrib": {"non_viable": 0}}}
    evs, keep, ids, calls = [], [], {}, [0]

    def I(x):
        if id(x) not in ids:
            keep.append(x)
            ids[id(x)] = len(keep)
        return ids[id(x)]

    def fn(ph):
        calls[0] += 1
        return np.array(ph, dtype=[float, int][style % 2])
    prob = mo.VecProblem(dirs, fn)
    it = iter(init)
    rep = Representation(initialize=lambda: np.array(next(it)), individual_cls=Individual)
    orig = rep.create_population
    first = []

    def create(*a, **kw):
        p = orig(*a, **kw)
        first.extend(I(x) for x in p)
        return p
    rep.create_population = create
    n = [0, 0]

    def view(pop):
        return dict(pop=[I(x) for x in pop], gen=drv.num(ctx["leap"].get("generation")), rk=[mo.rank(x) for x in keep], ds=[mo.dist(x) for x in keep])

    def stop(pop):
        a = n[0] == stopat
        n[0] += 1
        evs.append(dict(ev="stop", ans=a, **view(pop)))
        return a

    def tap(pop):
        off = []
        for v in offs[n[1] % len(offs)]:
            x = Individual(np.array(v), IdentityDecoder(), prob)
            x.evaluate()
            off.append(x)
        n[1] += 1
        d = view(pop)
        evs.append(dict(ev="pipe", pop=d["pop"], gen=d["gen"], off=[I(x) for x in off]))
        return off
    def init_evaluate(pop):      # evaluated elsewhere: what comes back are copies
        for x in pop:
            x.evaluate()
        out = [copy.copy(x) for x in pop]
        for x, y in zip(pop, out):
            ids[id(y)] = ids.pop(id(x))
            keep[ids[id(y)] - 1] = y
            lost.append(x)
        return out
    kw, lost = {}, []
    if style % 4 == 1:
        kw["init_evaluate"] = init_evaluate
    if rank is not None:
        kw["rank_func"] = rank
    if start or style % 2:
        kw["start_generation"] = start
    final = generalized_nsga_2(max_generations=maxgen, pop_size=len(init), problem=prob, representation=rep, pipeline=[tap], stop=stop, context=ctx, **kw)
    evs.append(dict(ev="ret", **view(final)))
    return dict(init=first, evs=evs, fit=[mo.vec(x) for x in keep], calls=calls[0], wantcalls=len(keep))


for j, g in enumerate(R.gen()):
    if R.thorough and j % 2 or not R.thorough and j % 3:
        continue
    R.case("crowd", crowd, g["vecs"], g["dirs"], j // 2, dirs=g["dirs"])
for j in range(3000 if R.thorough else 500):
    m, n = rr.randint(1, 3), rr.randint(1, 6)
    dirs = [rr.random() < .5 for _ in range(m)]
    hi = rr.choice([1, 4, 7])
    if m == 3 and hi == 1:
        n = min(n, 5)
    R.case("crowd", crowd, mo.rand_vecs(rr, n, m, hi), dirs, j, dirs=dirs)
for j in range(300 if R.thorough else 60):      # anti-chains: one big front without ties
    n = rr.randint(3, 8)
    a = rr.sample(range(0, 9), n)
    b = sorted(rr.sample(range(0, 9), n))
    a = sorted(a)
    d = rr.random() < .5
    vs = [[x, y] for x, y in zip(a, b[::-1] if d else b)]
    rr.shuffle(vs)
    dirs = [True, True] if d else [True, False]
    R.case("crowd", crowd, vs, dirs, j, dirs=dirs)
for j in range(200 if R.thorough else 30):      # large populations without ties
    m, n = rr.randint(1, 4), rr.choice([12, 25, 40])
    dirs = [rr.random() < .5 for _ in range(m)]
    R.case("crowd", crowd, mo.distinct_vecs(rr, n, m, rr.choice([60, 5000])), dirs, j, dirs=dirs)
for j in range(20):
    R.case("sorted", sort, rr.choice([20, 50, 90]), j)
for j in range(200 if R.thorough else 60):
    R.case("sorted", sort, rr.randint(1, 7), j)
for j in range(3000 if R.thorough else 500):
    m, ps = rr.choice([1, 2, 2, 2, 3]), rr.randint(1, 4)
    pool = rr.choice([ps, ps, rr.randint(1, 4)])
    hi = rr.choice([1, 3, 7])
    dirs = [rr.random() < .5 for _ in range(m)]
    if m == 3 and hi == 1:
        ps = pool = min(ps, 3)
    start = rr.choice([0, 0, 2])
    maxgen = start + rr.randint(0, 3)
    R.case("nsga", nsga, mo.rand_vecs(rr, ps, m, hi), [mo.rand_vecs(rr, pool, m, hi) for _ in range(3)], dirs, start, maxgen, rr.choice([None, None, 1, 2]),
           [None, fast_nondominated_sort, rank_ordinal_sort][j % 3], j, dirs=dirs, startgen=start, maxgen=maxgen, popsize=ps)
for j in range(100 if R.thorough else 12):       # wider, with real operators' sizes; values wide so that ties are rare
    m, ps = 2, rr.randint(5, 8)
    dirs = [rr.random() < .5 for _ in range(m)]
    R.case("nsga", nsga, mo.rand_vecs(rr, ps, m, 9), [mo.rand_vecs(rr, ps, m, 9) for _ in range(3)], dirs, 0, 3, None, None, j, dirs=dirs, startgen=0, maxgen=3, popsize=ps)
for j in range(40 if R.thorough else 8):
    m, ps = rr.choice([2, 2, 3]), rr.choice([10, 20, 30])
    gens = rr.choice([2, 6])
    vs = mo.distinct_vecs(rr, ps * (gens + 1), m, 9000)
    dirs = [rr.random() < .5 for _ in range(m)]
    R.case("nsga", nsga, vs[:ps], [vs[ps * (q + 1):ps * (q + 2)] for q in range(gens)], dirs, 0, gens, None, [None, fast_nondominated_sort, rank_ordinal_sort][j % 3], j, dirs=dirs, startgen=0, maxgen=gens, popsize=ps)
R.close()
