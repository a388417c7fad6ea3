import fakedask
import cluster, drv, mkd, logging
import numpy as np, cloudpickle
from leap_ec import ops
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem
from leap_ec.representation import Representation
from leap_ec.algorithm import generational_ea
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.distrib import evaluate as dev, synchronous
from leap_ec.distrib.asynchronous import steady_state
from leap_ec.multiobjective.problems import MultiObjectiveProblem
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from leap_ec.multiobjective.ops import fast_nondominated_sort, rank_ordinal_sort
from leap_ec.multiobjective.asynchronous import ENLUInserter
R = drv.Rec()
logging.disable(logging.CRITICAL)


class Custom(Exception):
    def __str__(self):
        return "custom"


BOOM = [ValueError, RuntimeError, ZeroDivisionError, KeyError, AssertionError, StopIteration, OSError, Custom, TypeError, MemoryError, RecursionError, NotImplementedError, UnicodeError]


class BadDecoder(IdentityDecoder):
    def __init__(self, box):
        super().__init__()
        self.box = box

    def decode(self, genome, *a, **k):
        if self.box["where"] == "decode" and self.box["err"] is not None:
            raise self.box["err"]
        return super().decode(genome, *a, **k)


def marks(hist, path, cls, j):
    box = {"err": None, "where": "decode" if j % 5 == 4 else "evaluate", "val": 0}

    def f(ph):
        if box["err"] is not None:
            raise box["err"]
        return [float, int, np.float64][j % 3](box["val"])
    ctx = {"leap": {"distrib": {"non_viable": 0}} if j % 7 else {}}
    x = cls(np.array([1]), BadDecoder(box), FunctionProblem(f, maximize=bool(j % 2)))
    seen, ret, esc = [], [], 0
    for k, o in enumerate(hist):
        box["val"], box["err"] = max(o, 0), None if o >= 0 else BOOM[(j + k * 3 - o) % len(BOOM)](f"planned {k}")
        r = None
        try:
            if path == "direct":
                r = x.evaluate()
            elif path == "op":
                y = next(ops.evaluate(iter([x])))
                assert y is x
            elif path == "population":
                cls.evaluate_population([x])
            else:
                fakedask.ACTIVE[0] = True
                fakedask.WORKER[0] = fakedask.Worker(logging.getLogger("v") if j % 2 else None)
                y = dev.evaluate(x, context=ctx)
                assert y is x
        except Exception as e:
            if e is box["err"]:
                esc += 1
            else:
                raise
        finally:
            fakedask.ACTIVE[0] = False
        e = getattr(x, "exception", None)
        seen.append(dict(fit=drv.num(x.fitness), viable=bool(x.is_viable), exc=0 if e is None else (o if e is box["err"] else -99)))
        ret.append(drv.NONE if r is None else drv.num(r))
        if (j + k) % 4 == 0:
            x.genome = np.array([k])
    return dict(seen=seen, ret=ret, escaped=esc, counted=path == "distrib", count=drv.num(ctx["leap"].get("distrib", {}).get("non_viable", 0)))


for j, g in enumerate(R.gen()):
    for p, path in enumerate(["direct", "op", "population", "distrib"]):
        cls = [RobustIndividual, DistributedIndividual][(j + p) % 2]
        R.case("marks", marks, g["hist"], path, cls, j + p, hist=g["hist"], path=path)


def count(n, bad, entry, transport, client=None):
    ctx = {"leap": {"distrib": {"non_viable": 0}}}
    prob = mkd.PlainProblem([1.0], set(bad), True)
    inds = [DistributedIndividual(np.array([k]), IdentityDecoder(), prob) for k in range(n)]
    cl = client or fakedask.Client(lambda pend: len(pend) - 1)
    fakedask.ACTIVE[0] = client is None
    fakedask.WORKER[0] = fakedask.Worker()
    try:
        if entry == "eval_population":
            out = synchronous.eval_population(inds, client=cl, context=ctx)
        elif entry == "eval_pool":
            out = synchronous.eval_pool(iter(inds), client=cl, size=n, context=ctx)
        else:
            out = [f.result() for f in [cl.submit(dev.evaluate(context=ctx), x, pure=False) for x in inds]]
    except fakedask.Unsupported:
        return dict(kind="skipped")
    finally:
        fakedask.ACTIVE[0] = False
    ok = all((x.fitness != x.fitness) == (int(x.genome[0]) in bad) and x.is_viable == (int(x.genome[0]) not in bad) and (x.exception is not None) == (int(x.genome[0]) in bad) for x in out)
    return dict(count=drv.num(ctx["leap"]["distrib"]["non_viable"]), fails=len(bad), marks=bool(ok))


for n in (1, 3, 5):
    for bad in ([], [0], list(range(n))):
        for entry in ("eval_population", "eval_pool", "submit"):
            R.case("count", count, n, bad, entry, "shared", transport="shared", entry=entry)
with cluster.Real(R, n_workers=1) as rc:
    for bad in ([], [0, 2]):
        rc.case("count", count, 4, bad, "eval_population", "cluster", rc.client, transport="cluster", entry="eval_population")


def failed_pop(vals, mx, cls):
    prob = FunctionProblem(lambda x: [][0] if x[0] == drv.NAN else float(x[0]), maximize=mx)
    pop = [cls(np.array([v]), IdentityDecoder(), prob) for v in vals]
    for x in pop:
        x.evaluate()
    return pop


def beats(vals, pvals, mx, op, j):
    R.seed("p18b", j)
    cls = [RobustIndividual, DistributedIndividual][j % 2]
    off, par = failed_pop(vals, mx, cls), failed_pop(pvals, mx, cls)
    allp = off + par
    idx = {id(x): k + 1 for k, x in enumerate(allp)}
    left = None
    if op == "trunc":
        kept = ops.truncation_selection(off, size=max(1, len(off) // 2))
        pool = off
    elif op == "trunc_par":
        kept = ops.truncation_selection(off, size=len(off), parents=par)
        pool = allp
    elif op == "elitist":
        kept = ops.elitist_survival(off, parents=par, k=len(par))
        pool = allp
    elif op == "tournament":
        kept = [next(ops.tournament_selection(off, k=80))]
        pool = off
    elif op == "max":
        kept, pool = [max(off)], off
    elif op == "min":
        worst = min(off)
        pool = off
        kept = [x for x in off if x is not worst]
        # the worst is left out: nobody failed may be kept over it if it is viable
    else:
        par = par[:1]
        kept = ops.insertion_selection(off, parents=par)
        pool = off + par
    k = [idx[id(x)] for x in kept]
    return dict(kept=k, left=[idx[id(x)] for x in pool if idx[id(x)] not in k], viab=[bool(x.is_viable) for x in allp])


OPS = ["trunc", "trunc_par", "elitist", "tournament", "max", "min", "insert"]
for j in range(4000 if R.thorough else 700):
    rr = R.rng
    n = rr.randint(1, 4)
    vs = [rr.choice([drv.NAN, drv.NAN, -3, 0, 5]) for _ in range(n)]
    ps = [rr.choice([drv.NAN, -3, 0, 5]) for _ in range(rr.randint(1, 3))]
    R.case("beats", beats, vs, ps, rr.random() < .5, OPS[j % len(OPS)], j, op=OPS[j % len(OPS)])

for j in range(300 if R.thorough else 56):       # large populations
    rr = R.rng
    vs = [rr.choice([drv.NAN, drv.NAN, rr.randint(-30, 30)]) for _ in range(rr.choice([20, 45]))]
    ps = [rr.choice([drv.NAN, rr.randint(-30, 30)]) for _ in range(rr.choice([3, 30]))]
    op = [o for o in OPS if o != "tournament"][j % 6]
    R.case("beats", beats, vs, ps, rr.random() < .5, op, j, op=op)


def run(popsize, gens, k, mx, pfail, cls, j, mode):
    R.seed("p18r", j)
    rr = np.random.RandomState(j)
    ctx = {"leap": {"distrib": {"non_viable": 0}}}
    calls, fails = [0], [0]

    def f(x):
        calls[0] += 1
        if rr.rand() < pfail:
            fails[0] += 1
            raise BOOM[calls[0] % len(BOOM)]("planned")
        return float(rr.randint(-4, 5))
    prob = mkd.RegProblem(f, maximize=mx)
    sizes, nv, best, good = [], [], [], [True]

    def see(pop):
        sizes.append(len(pop))
        nv.append(sum(bool(x.is_viable) for x in pop))
        vs = [x.fitness for x in pop if x.is_viable]
        best.append(drv.num((max if mx else min)(vs)) if vs else drv.NAN)
        good[0] = good[0] and all((x.fitness != x.fitness) == (not x.is_viable) and (x.exception is None) == x.is_viable for x in pop)
        return False
    rep = Representation(initialize=lambda: np.random.rand(2), individual_cls=cls, decoder=IdentityDecoder())
    sel = [ops.tournament_selection(k=2), ops.random_selection, ops.cyclic_selection][j % 3]
    kw = {}
    if mode == "serial":
        pipe = [sel, ops.clone, ops.UniformCrossover(p_swap=.5), ops.evaluate, ops.pool(size=popsize)]
    else:
        cl = fakedask.Client(lambda pend: len(pend) - 1)
        pipe = [sel, ops.clone, ops.UniformCrossover(p_swap=.5), synchronous.eval_pool(client=cl, size=popsize, context=ctx)]
        kw["init_evaluate"] = synchronous.eval_population(client=cl, context=ctx)
    fakedask.ACTIVE[0] = mode != "serial"
    try:
        final = generational_ea(max_generations=gens, pop_size=popsize, problem=prob, representation=rep, pipeline=pipe, k_elites=k, stop=see, context=ctx, **kw)
    except fakedask.Unsupported:
        return dict(kind="skipped")
    finally:
        fakedask.ACTIVE[0] = False
    see(final)
    cnt = ctx["leap"]["distrib"]["non_viable"] if mode != "serial" else fails[0]
    return dict(done=True, sizes=sizes, nviable=nv, best=best, calls=calls[0] + 1000 * cnt, want=popsize * (gens + 1) + 1000 * fails[0], marks=good[0])


for j in range(400 if R.thorough else 60):
    rr = R.rng
    ps, gens, k, mx = rr.randint(1, 5), rr.randint(0, 5), rr.randint(0, 2), rr.random() < .5
    R.case("run", run, ps, gens, k, mx, rr.choice([.1, .5, .9, 1.0]), [RobustIndividual, DistributedIndividual][j % 2], j, ["serial", "sync"][j // 2 % 2],
           popsize=ps, k=k, max=mx)

for j in range(40 if R.thorough else 8):
    rr = R.rng
    ps, gens, k, mx = rr.choice([15, 30]), rr.choice([8, 20]), rr.choice([0, 1, 5]), rr.random() < .5
    R.case("run", run, ps, gens, k, mx, rr.choice([.05, .5, .95]), [RobustIndividual, DistributedIndividual][j % 2], j, ["serial", "sync"][j // 2 % 2], popsize=ps, k=k, max=mx)


class MO(MultiObjectiveProblem):
    def __init__(self, bad):
        super().__init__((True, False))
        self.bad, self.n = bad, 0

    def evaluate(self, ph):
        self.n += 1
        if self.n in self.bad:
            raise ValueError("planned")
        return np.array([float(self.n % 5), float(self.n % 3)])


def mo_nsga(bad, rank):
    prob = MO(bad)
    rep = Representation(initialize=lambda: np.random.rand(2), individual_cls=RobustIndividual)
    final = generalized_nsga_2(max_generations=2, pop_size=4, problem=prob, representation=rep, rank_func=rank,
                               pipeline=[ops.random_selection, ops.clone, ops.UniformCrossover(), ops.evaluate, ops.pool(size=4)], context={"leap": {"distrib": {"non_viable": 0}}})
    return dict(done=True, kept=all(x.is_viable for x in final))


def mo_enlu(bad):
    prob = MO(bad)
    ins, pop = ENLUInserter(), []
    for _ in range(6):
        x = RobustIndividual(np.random.rand(2), IdentityDecoder(), prob)
        x.evaluate()
        ins(x, pop, 4)
    return dict(done=True, kept=all(x.is_viable for x in pop))


for bad in ([], [2], [6]):
    R.case("mo", mo_nsga, bad, rank_ordinal_sort, algo="nsga2-rank_ordinal_sort", failing=bad)
    R.case("mo", mo_nsga, bad, fast_nondominated_sort, algo="nsga2-fast_nondominated_sort", failing=bad)
    R.case("mo", mo_enlu, bad, algo="enlu", failing=bad)
R.close()
