import csv, os
import drv
import numpy as np
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem
from leap_ec.representation import Representation
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec import ops
from leap_ec.contrib.transfer.sequential import PopulationSeedingRepertoire, initialize_seeded
R = drv.Rec()
rr = R.rng
enc = lambda k: np.array([float(k), k + .5])


def dec(g):
    g = list(np.asarray(g, dtype=float))
    if len(g) == 2 and g[0] == -7.0:
        return 0
    return drv.num(g[0]) if len(g) == 2 and g[1] == g[0] + .5 else drv.ODD


fresh = lambda: np.array([-7.0, -7.0])


def hist(h, style):
    path = os.path.join(R.a.work, "rep.csv")
    if os.path.exists(path):
        os.unlink(path)
    cur = {}

    def alg(problem, init, **kw):
        cur["calls"].append(problem.tag)
        cur["args"] &= kw == cur["kw"].get(problem.tag, {})
        n = cur["n"]
        pop = Individual.create_population(n, initialize=init, decoder=IdentityDecoder(), problem=problem)
        cur["pop"] += [dec(x.genome) for x in pop]
        if style % 2 and pop:      # a real breeding step on the seeded population
            list(ops.pool(mutate_gaussian(ops.clone(ops.naive_cyclic_selection(pop)), std=1.0, expected_num_mutations=1), len(pop)))
        best = Individual(enc(problem.tag), IdentityDecoder(), problem)
        worse = Individual(enc(55), IdentityDecoder(), problem)
        best.fitness, worse.fitness = 1.0, 2.0 if style % 5 > 2 else 0.0     # the last one counts, whatever its fitness
        out = [(0, worse), (1, worse), (2, best)] if style % 4 < 2 else [(s, worse) for s in range(40)] + [(40, best)]
        return iter(out) if style % 3 else out

    def prob(tag):
        p = FunctionProblem(lambda x: 0, maximize=True)
        p.tag = tag
        return p
    rep = PopulationSeedingRepertoire(fresh, alg)
    obs = []
    for st in h:
        cur.update(calls=[], args=True, pop=[], n=2 if st["op"] == "build" else st["n"], kw={})
        o = dict(file=[], result=True)
        if st["op"] == "build":
            kw = None
            if (style + len(obs)) % 2:
                kw = [dict(budget=10 * t, name=f"p{t}") for t in st["sols"]]
                cur["kw"] = dict(zip(st["sols"], kw))
            rep.build_repertoire([prob(t) for t in st["sols"]], kw)
        elif st["op"] == "apply":
            kw = dict(budget=3) if style % 2 else {}
            cur["kw"] = {9: kw}
            res = list(rep.apply(prob(9), **kw))
            o["result"] = [s for s, _ in res] == ([0, 1, 2] if style % 4 < 2 else list(range(41))) and dec(res[-1][1].genome) == 9
        elif st["op"] == "export":
            rep.export(path)
            with open(path) as f:
                o["file"] = [dec([float(v) for v in row]) for row in csv.reader(f)]
        elif os.path.exists(path):
            rep = PopulationSeedingRepertoire(fresh, alg, path) if style % 2 else PopulationSeedingRepertoire(fresh, alg, repfile=path)
        o.update(store=[dec(g) for g in rep.repertoire], arrays=all(isinstance(g, np.ndarray) for g in rep.repertoire), pop=cur["pop"], calls=cur["calls"], args=cur["args"])
        obs.append(o)
    return dict(obs=obs)


def inits(seeds, use):
    calls = [0]

    def fr():
        calls[0] += 1
        return fresh()
    S = [enc(k) for k in seeds]
    keep = [g.copy() for g in S]
    ini = {1: initialize_seeded(fr, S), 2: initialize_seeded(fr, S)}
    got = {1: [], 2: []}
    for w in use:
        got[w].append(dec(ini[w]()))
    return dict(got=[got[1], got[2]], fresh=calls[0], seedsame=len(S) == len(keep) and all((a == b).all() for a, b in zip(S, keep)))


def create(seeds, n, style):
    S = [enc(k) for k in seeds]
    p = FunctionProblem(lambda x: 0, maximize=True)
    ini = initialize_seeded(fresh, S)
    pop = Individual.create_population(n, initialize=ini, decoder=IdentityDecoder(), problem=p) if style else Representation(initialize=ini, decoder=IdentityDecoder()).create_population(n, p)
    return dict(pop=[dec(x.genome) for x in pop], ok=all(x.problem is p and x.fitness is None for x in pop) and len({id(x) for x in pop}) == n)


for k, c in enumerate(R.gen()):
    if c["what"] == "hist":
        R.case("hist", hist, c["h"], k, h=c["h"])
    else:
        R.case("inits", inits, c["seeds"], c["use"], seeds=c["seeds"], use=c["use"])
for k in range(150 if R.thorough else 40):      # long lives of a repertoire, many seeds
    h, known = [], 0
    for _ in range(rr.randint(4, 14)):
        op = rr.choice(["build", "build", "apply", "apply", "export", "reload"])
        sols = [rr.randint(1, 8) for _ in range(rr.randint(0, 6))] if op == "build" else []
        h.append(dict(op=op, sols=list(dict.fromkeys(sols)), n=rr.choice([0, 1, 5, 12, 30]) if op == "apply" else 0))
    R.case("hist", hist, h, k, h=h)
    seeds = [rr.randint(1, 40) for _ in range(rr.choice([0, 4, 11, 30]))]
    use = [rr.randint(1, 2) for _ in range(rr.choice([5, 20, 70]))]
    R.case("inits", inits, seeds, use, seeds=seeds, use=use)
    n = rr.choice([3, 12, 40, 90])
    R.case("create", create, seeds, n, k % 2, seeds=seeds, n=n)
for k in range(12 if R.thorough else 4):      # a repertoire of hundreds
    big = list(range(1, rr.choice([130, 260]) + 1))
    h = [dict(op="build", sols=big, n=0), dict(op="apply", sols=[], n=rr.choice([50, 300])), dict(op="export", sols=[], n=0), dict(op="reload", sols=[], n=0), dict(op="apply", sols=[], n=300)]
    R.case("hist", hist, h, k, h=h)
for s in range(0, 6):
    for n in range(0, 8):
        for st in (0, 1):
            R.case("create", create, list(range(1, s + 1)), n, st, seeds=list(range(1, s + 1)), n=n)
R.close()
