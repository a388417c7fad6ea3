import copy
import drv
import numpy as np
from leap_ec import ops
from leap_ec import global_vars
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem
from leap_ec.representation import Representation
from leap_ec.algorithm import multi_population_ea
from leap_ec.binary_rep.ops import mutate_bitflip
from leap_ec.binary_rep.initializers import create_binary_sequence
R = drv.Rec()


def run(g, style):
    own_ctx = style % 3 != 0
    gl = global_vars.context
    gl["leap"].clear()
    gl["leap"]["distrib"] = {"non_viable": 0}
    gl["leap"]["mark"] = 1
    ctx = {"leap": {"distrib": {"non_viable": 0}}} if own_ctx else gl
    ids, repof, probof, evs, calls = drv.Ids(), [], [], [], []
    n = g["n"]

    def nid(x):
        k = ids(x)
        if k > len(repof):
            repof.append(getattr(x, "rep", 0))
            pr = [q for q in range(n) if probs[q] is x.problem]
            probof.append(pr[0] + 1 if pr else 0)
        return k

    def L(pop):
        return [nid(x) for x in pop]

    def snap():
        sp = ctx["leap"].get("subpopulations")
        return dict(cur=drv.num(ctx["leap"].get("current_subpopulation")), gen=drv.num(ctx["leap"].get("generation")),
                    live=[L(p) for p in sp] if sp is not None else [])

    class Ind(Individual):
        def evaluate(self):
            calls.append(nid(self))
            self.fitness = float(len(calls))
            return self.fitness
    probs = [FunctionProblem(lambda p: 0, maximize=bool(k % 2)) for k in range(n)]

    def rep(k):
        class IndK(Ind):
            rep = k
        return Representation(initialize=lambda: np.array([k]), individual_cls=IndK)
    reps = [rep(k + 1) for k in range(n)]

    def offspring(pop):
        out = []
        for x in list(pop)[::-1] + list(pop)[:style % 2]:
            y = x.clone()
            y.fitness = 0.0
            out.append(y)
        return out
    pend = {}

    def sh(pop):
        s = snap()
        out = offspring(pop)
        evs.append(dict(ev="sh", **{"in": L(pop)}, out=L(out), **s))
        return out

    def own(k):
        def op(pop):
            s = snap()
            out = offspring(pop)[:max(1, len(pop) - style % 2)]
            evs.append(dict(ev="own", isl=k + 1, **{"in": L(pop)}, out=L(out), **s))
            return out
        return op
    asked = {"n": 0}

    def first(pops):
        if not evs:
            evs.append(dict(ev="init", pops=[L(p) for p in pops], calls=list(calls)))

    def stop(pops):
        first(pops)
        a = asked["n"] == g["stop"]
        asked["n"] += 1
        evs.append(dict(ev="stop", pops=[L(p) for p in pops], gen=drv.num(ctx["leap"].get("generation")), ans=a))
        return a
    kw, lost = {}, []
    if own_ctx:
        kw["context"] = ctx
    if g["own"]:
        kw["subpop_pipelines"] = [[own(k)] for k in range(n)]
    if style % 4 == 1:
        def ie(pop):
            for x in pop:
                x.evaluate()
            if style % 8 == 1:
                return list(pop)
            out = [copy.copy(x) for x in pop]      # evaluated elsewhere: what comes back are copies
            for x, y in zip(pop, out):
                ids.d[id(y)] = ids.d.pop(id(x))
                ids.keep[ids.d[id(y)] - 1] = y
                lost.append(x)
            return out
        kw["init_evaluate"] = ie
    elif True:
        kw["init_evaluate"] = Ind.evaluate_population
    if style % 5 == 2:
        kw.pop("init_evaluate")
    final = multi_population_ea(max_generations=g["maxgen"], num_populations=n, pop_size=g["popsize"], problem=probs if g["probs"] else probs[0],
                                representation=reps if g["reps"] else reps[0], shared_pipeline=[sh], stop=stop, **kw)
    first(final)
    evs.append(dict(ev="ret", pops=[L(p) for p in final], gen=drv.num(ctx["leap"].get("generation"))))
    foreign = own_ctx and set(gl["leap"]) != {"distrib", "mark"}
    return dict(evs=evs, repof=repof, probof=probof, foreign=foreign)


for j, g in enumerate(R.gen()):
    R.case("run", run, g, j, n=g["n"], maxgen=g["maxgen"], popsize=g["popsize"], own=g["own"], reps=g["reps"], probs=g["probs"])

for j in range(60 if R.thorough else 12):        # more islands, larger populations, longer runs
    g = dict(n=R.rng.choice([4, 7, 11]), maxgen=R.rng.choice([6, 12, 25]), popsize=R.rng.choice([5, 9, 16]), own=R.rng.random() < .5, reps=R.rng.random() < .5, probs=R.rng.random() < .5, stop=R.rng.choice([99, 99, 4, 10]))
    R.case("run", run, g, j, n=g["n"], maxgen=g["maxgen"], popsize=g["popsize"], own=g["own"], reps=g["reps"], probs=g["probs"])


def lazy(n, popsize, maxgen, split):
    """Real operators; the pipeline is lazy and is split at some point between the shared and the own part."""
    ctx = {"leap": {"distrib": {"non_viable": 0}}}
    calls = []
    started = {"on": False}

    def f(k):
        def fn(x):
            if started["on"]:
                calls.append([k, drv.num(ctx["leap"]["current_subpopulation"]), drv.num(ctx["leap"]["generation"])])
            return float(np.sum(x))
        return FunctionProblem(fn, maximize=True)
    probs = [f(k + 1) for k in range(n)]
    reps = [Representation(initialize=create_binary_sequence(3 + k)) for k in range(n)]
    stages = [ops.tournament_selection(k=2), ops.clone, mutate_bitflip(expected_num_mutations=1), ops.UniformCrossover(), ops.evaluate, ops.pool(size=popsize)]

    def stop(pops):
        started["on"] = True
        return False
    kw = dict(subpop_pipelines=[stages[split:] for _ in range(n)]) if split < len(stages) else {}
    final = multi_population_ea(max_generations=maxgen, num_populations=n, pop_size=popsize, problem=probs, representation=reps,
                                shared_pipeline=stages[:split], stop=stop, context=ctx, **kw)
    bel = all(x.problem is probs[k] and len(x.genome) == 3 + k for k, p in enumerate(final) for x in p)
    return dict(calls=calls, sizes=[len(p) for p in final], belong=bel)


for n in (1, 2, 3):
    for popsize in (1, 2, 3, 4):
        for maxgen in (0, 1, 3):
            for split in (1, 2, 3, 4, 5, 6):
                R.case("lazy", lazy, n, popsize, maxgen, split, n=n, popsize=popsize, maxgen=maxgen)
for j in range(10):
    n, popsize, maxgen = R.rng.choice([5, 8]), R.rng.choice([7, 12]), R.rng.choice([5, 11])
    R.case("lazy", lazy, n, popsize, maxgen, 1 + j % 6, n=n, popsize=popsize, maxgen=maxgen)
R.close()
