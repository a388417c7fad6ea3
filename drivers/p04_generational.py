import copy, io
import fakedask
import drv, mk
import matplotlib
matplotlib.use('agg')
from matplotlib import pyplot as plt
import numpy as np
from leap_ec import ops
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem
from leap_ec.representation import Representation
from leap_ec.algorithm import generational_ea, stop_at_generation
from leap_ec.binary_rep.ops import mutate_bitflip
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.simple import ea_solve
R = drv.Rec()


class Tap:
    def __init__(self, ctx):
        self.ctx, self.evs, self.ids, self.val, self.keep = ctx, [], {}, [], []

    def id(self, x):
        if id(x) not in self.ids:
            self.keep.append(x)
            self.ids[id(x)] = len(self.keep)
        return self.ids[id(x)]

    def all(self, pop):
        return [self.id(x) for x in pop]

    def gen(self):
        return drv.num(self.ctx["leap"].get("generation"))

    def vals(self):
        return [self._v(x) for x in self.keep]

    def _v(self, x):
        return drv.num(x.fitness)


def fit(v):
    return float("nan") if v == drv.NAN else float(v)


def scripted(g, start, maxgen, mx, k, style):
    ctx = {"leap": {"distrib": {"non_viable": 0}}}
    t = Tap(ctx)
    calls = []
    prob = FunctionProblem(lambda p: 0, maximize=mx)

    class Ind(Individual):
        def evaluate(self):
            calls.append(t.id(self))
            self.fitness = fit(self.genome)
            return self.fitness

    it = iter(g["init"])
    rep = Representation(initialize=lambda: next(it), individual_cls=Ind)
    orig = rep.create_population

    def create(*a, **kw):
        p = orig(*a, **kw)
        t.evs.append(dict(ev="create", pop=t.all(p)))
        return p
    rep.create_population = create
    n = {"gen": 0, "stop": 0}

    def stop(pop):
        if not any(e["ev"] == "ieval" for e in t.evs):
            t.evs.append(dict(ev="ieval", calls=list(calls)))
        a = n["stop"] == g["stop"] if style["stop"] else False
        n["stop"] += 1
        t.evs.append(dict(ev="stop", pop=t.all(pop), gen=t.gen(), ans=a))
        return a

    def pipeop(pop):
        vals = g["offs"][n["gen"] % len(g["offs"])]
        n["gen"] += 1
        off = []
        for v in vals:
            x = Ind(v, IdentityDecoder(), prob)
            x.fitness = fit(v)
            off.append(x)
        if style["reuse"] and off:      # some pipelines hand a parent on unchanged among the offspring
            pass
        t.evs.append(dict(ev="pipe", pop=t.all(pop), gen=t.gen(), off=t.all(off)))
        return off
    kw = dict(k_elites=k) if k != 1 or style["full"] else {}
    if start or style["full"]:
        kw["start_generation"] = start
    ini, lost = [], []

    def init_evaluate(pop):
        ini.append(1)
        for x in pop:
            x.evaluate()
        if style["init"] == 1:
            return list(pop)
        out = [copy.copy(x) for x in pop]      # evaluated elsewhere: what comes back are copies
        for x, y in zip(pop, out):
            t.ids[id(y)] = t.ids.pop(id(x))
            t.keep[t.ids[id(y)] - 1] = y
            lost.append(x)
        return out
    if style["init"]:
        kw["init_evaluate"] = init_evaluate
    final = generational_ea(max_generations=maxgen, pop_size=len(g["init"]), problem=prob, representation=rep, pipeline=[pipeop], stop=stop, context=ctx, **kw)
    if not any(e["ev"] == "ieval" for e in t.evs):
        t.evs.insert(1, dict(ev="ieval", calls=list(calls)))
    t.evs.append(dict(ev="ret", pop=t.all(final), gen=t.gen()))
    return dict(evs=t.evs, val=t.vals(), calls=0, ngen=n["gen"], pool=0, counted=False)


G = R.gen()
for j, g in enumerate(G):
    if R.thorough and j % 2:
        continue
    start = [0, 0, 3, 1][j % 4]
    maxgen = start + [2, 3, 0, 1][(j // 4) % 4] - (1 if j % 23 == 0 else 0)
    st = dict(stop=(j // 2) % 3 != 0, full=j % 2, init=[1, 0, 2, 0, 0][j % 5], reuse=False)
    R.case("run", scripted, dict(g, stop=g["stop"]), start, maxgen, g["max"], g["k"], st, max=g["max"], k=g["k"], popsize=len(g["init"]), startgen=start, maxgen=maxgen)


def real(kind, pop, pool, maxgen, start, k, mx, stopat, seed):
    R.seed("p04", seed)
    ctx = {"leap": {"distrib": {"non_viable": 0}}}
    t = Tap(ctx)
    calls = []
    fails = R.rng.random() < .3

    def f(ph):
        calls.append(1)
        if fails and np.random.rand() < .3:
            raise RuntimeError("planned failure")
        return float(int(np.sum(np.array(ph) > 0)))
    prob = FunctionProblem(f, maximize=mx)
    cls = RobustIndividual
    rep = Representation(initialize=create_binary_sequence(5) if kind == "bin" else create_real_vector([(-1, 1)] * 4), individual_cls=cls)
    orig = rep.create_population

    def create(*a, **kw):
        p = orig(*a, **kw)
        t.evs.append(dict(ev="create", pop=t.all(p)))
        return p
    rep.create_population = create
    n = {"gen": 0}

    def tin(pop):
        n["gen"] += 1
        n["in"] = t.all(pop)
        n["g"] = t.gen()
        return pop

    def tout(off):
        t.evs.append(dict(ev="pipe", pop=n["in"], gen=n["g"], off=t.all(off)))
        return off

    def init_evaluate(pop):
        r = cls.evaluate_population(pop)
        t.evs.append(dict(ev="ieval", calls=t.all(r)))
        return r
    asked = {"n": 0}

    def stop(pop):
        a = asked["n"] == stopat
        asked["n"] += 1
        t.evs.append(dict(ev="stop", pop=t.all(pop), gen=t.gen(), ans=a))
        return a
    mut = mutate_bitflip(expected_num_mutations=1) if kind == "bin" else mutate_gaussian(std=.5, expected_num_mutations="isotropic", bounds=(-1, 1))
    x = ops.UniformCrossover(p_swap=.3) if seed % 2 else ops.NAryCrossover(num_points=2, persist_children=True)
    final = generational_ea(max_generations=maxgen, pop_size=pop, problem=prob, representation=rep, context=ctx, stop=stop, init_evaluate=init_evaluate, k_elites=k, start_generation=start,
                            pipeline=[tin, ops.tournament_selection if seed % 3 else ops.random_selection, ops.clone, mut, x, ops.evaluate, ops.pool(size=pool), tout])
    t.evs.append(dict(ev="ret", pop=t.all(final), gen=t.gen()))
    return dict(evs=t.evs, val=t.vals(), calls=len(calls), ngen=n["gen"], pool=pool, counted=True)


for s in range(400 if R.thorough else 60):
    rr = R.rng
    pop, pool, k = rr.randint(1, 5), rr.randint(1, 5), rr.randint(0, 3)
    start = rr.choice([0, 0, 2])
    maxgen = start + rr.randint(0, 6)
    mx = rr.random() < .5
    R.case("run", real, rr.choice(["bin", "real"]), pop, pool, maxgen, start, k, mx, rr.choice([None, 1, 3]), s, max=mx, k=k, popsize=pop, startgen=start, maxgen=maxgen)

for s in range(60 if R.thorough else 12):       # larger populations, more elites, longer runs
    rr = R.rng
    pop = rr.choice([12, 25, 40])
    pool, k = rr.choice([pop, pop, 7]), rr.choice([0, 1, 6, 12])
    start = rr.choice([0, 0, 90])
    maxgen = start + rr.choice([5, 12])
    mx = rr.random() < .5
    R.case("run", real, rr.choice(["bin", "real"]), pop, pool, maxgen, start, k, mx, rr.choice([None, None, 8]), s, max=mx, k=k, popsize=pop, startgen=start, maxgen=maxgen)
for s in range(150 if R.thorough else 25):      # scripted: values spread over a wide range
    rr = R.rng
    V = lambda: drv.NAN if rr.random() < .08 else rr.randint(-900, 900)
    pop = rr.choice([8, 20, 33])
    g = dict(init=[V() for _ in range(pop)], offs=[[V() for _ in range(pop)] for _ in range(6)], stop=rr.choice([99, 99, 3]))
    mx, k = rr.random() < .5, rr.choice([0, 1, 3, 8])
    R.case("run", scripted, g, 0, 6, mx, k, dict(stop=True, full=s % 2, init=s % 5 == 0, reuse=False), max=mx, k=k, popsize=pop, startgen=0, maxgen=6)


def solve(gens, pop, mx, hard, how, std=.3):
    log = []

    def f(x):
        log.append(([float(v) for v in x], float(sum(round(v, 3) for v in x))))
        return log[-1][1]
    b = [(-1., 1.), (0., 2.)]
    out = io.StringIO()
    kw = dict(pop_size=pop, stream=out)
    if gens != 100:
        kw.update(generations=gens, mutation_std=std)
    if mx or how == "dask":
        kw["maximize"] = mx
    if not hard or how == "viz":
        kw["hard_bounds"] = hard
    plotted, through = -1, [0]

    def seen(ev, fut):
        through[0] += ev == "submit"
    try:
        if how == "dask":
            fakedask.ACTIVE[0] = True
            kw["dask_client"] = fakedask.Client(lambda pend: R.rng.randrange(len(pend)), seen)
        if how == "viz":
            plt.figure()
            kw["viz"] = True
        r = ea_solve(f, b, **kw)
        if how == "viz":
            plotted = sum(len(l.get_ydata()) for l in plt.gca().lines)
    except fakedask.Unsupported:
        return dict(kind="skipped")
    finally:
        fakedask.ACTIVE[0] = False
        plt.close("all")
    off = [v for _, v in log[pop:]]
    mine = float(sum(round(float(v), 3) for v in r))
    best = (max if mx else min)(off)
    inside = all(lo - 1e-12 <= float(v) <= hi + 1e-12 for v, (lo, hi) in zip(r, b)) if hard else True
    isin = [all(lo - 1e-12 <= v <= hi + 1e-12 for v, (lo, hi) in zip(x, b)) for x, _ in log]
    genes = [{x[k] for x, _ in log[:pop]} for k in range(2)]
    rows = [q.split(",") for q in out.getvalue().split()]
    return dict(init=all(isin[:pop]), allin=all(isin), moved=not all(x[k] in genes[k] for x, _ in log[pop:] for k in range(2)), calls=len(log), best=abs(mine - best) < 1e-9, inside=inside, head=rows[0], steps=[int(q[0]) for q in rows[1:]], bsf=[int(round(1000 * float(q[1]))) for q in rows[1:]],
                vals=[int(round(1000 * v)) for v in off], plotted=plotted, through=through[0])


from leap_ec.global_vars import context as gctx
for gens, pop in ((1, 4), (3, 2), (5, 6), (100, 2)):
    for mx in (True, False):
        for hard in (True, False):
            for how in ("plain", "dask", "viz"):
                if gens == 100 and how == "viz":
                    continue
                gctx["leap"].pop("generation", None)
                R.case("solve", solve, gens, pop, mx, hard, how, popsize=pop, maxgen=gens, max=mx, how=how, hard=hard, still=False)
for gens, pop in ((2, 12), (40, 9), (25, 40)):
    for j in range(8):
        gctx["leap"].pop("generation", None)
        mx, hard, how = j % 2 == 0, j % 4 < 2, ["plain", "dask"][j // 4]
        R.case("solve", solve, gens, pop, mx, hard, how, 0. if j % 3 == 0 else 1.5, popsize=pop, maxgen=gens, max=mx, how=how, hard=hard, still=j % 3 == 0)


def stopper(at, gen):
    ctx = {"leap": {"generation": gen}}
    return dict(ans=bool(stop_at_generation(at, context=ctx)([])))


for at in range(0, 5):
    for gen in range(0, 7):
        R.case("stopper", stopper, at, gen, at=at, gen=gen)
R.close()
