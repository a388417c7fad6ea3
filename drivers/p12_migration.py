import csv, io
import drv, mk
import networkx as nx
import numpy as np
from leap_ec import ops
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem
from leap_ec.representation import Representation
from leap_ec.algorithm import multi_population_ea
R = drv.Rec()


def graph(nb):
    """nb: neighbours per island."""
    g = nx.DiGraph()
    g.add_nodes_from(range(len(nb)))
    for s, ds in enumerate(nb):
        for d in ds:
            g.add_edge(s, d)
    return g


class Rig:
    def __init__(self, nb, gap, mx, stampmode, withmetric, selectors, rng, topo=None):
        self.nb, self.rng, self.mx = nb, rng, mx
        self.ids, self.keep = {}, []
        self.ctx = {"leap": {"generation": 0, "current_subpopulation": 0}}
        self.evs, self.tag, self.sponsors, self.routes = [], 0, {}, {}
        self.prob = FunctionProblem(lambda p: 0, maximize=mx)
        self.src = {}
        r = self

        def emig(pop):
            inner = selectors[0](pop)
            while True:
                x = next(inner)
                r.tag += 1
                x.tag = r.tag
                r.src[r.tag] = r.ctx["leap"]["current_subpopulation"]
                r.sponsors[r.tag] = (x, [int(v) for v in x.genome], x.fitness, x.uuid)
                r.evs.append(dict(ev="emig", tag=r.tag, pop=[r.id(y) for y in pop]))
                yield x

        def repl(pop, indices=None):
            inner = selectors[1](pop, indices=indices)
            while True:
                x = next(inner)
                r.evs.append(dict(ev="repl", idx=indices[0], pop=[r.id(y) for y in pop]))
                yield x

        def stamp(imm, dst):
            t = getattr(imm, "tag", 0)
            sp = r.sponsors.get(t)
            copy = bool(sp) and imm is not sp[0] and [int(v) for v in imm.genome] == sp[1] and repr(imm.fitness) == repr(sp[2]) and imm.uuid != sp[3] and id(imm) not in r.ids \
                and not np.shares_memory(imm.genome, sp[0].genome) and imm.parents == {sp[3]}
            r.routes[(r.src.get(t), dst)] = r.routes.get((r.src.get(t), dst), 0) + 1
            if stampmode == "replace":
                y = imm.clone()
                y.fitness = imm.fitness + rng.choice([0, 0, 1, -1])
            elif stampmode == "change":
                y = imm
                y.fitness = imm.fitness + rng.choice([0, 1, -1])
            else:
                y = imm
            r.evs.append(dict(ev="stamp", tag=t, dst=dst, out=r.id(y), copy=copy))
            return y

        def metric(gen, imm, con, ok):
            r.evs.append(dict(ev="metric", gen=drv.num(gen), imm=r.id(imm), con=r.id(con), ok=bool(ok)))
        kw = dict(customs_stamp=stamp)
        if withmetric:
            kw["metric"] = metric
        self.op = ops.migrate(topology=topo or graph(nb), emigrant_selector=emig, replacement_selector=repl, migration_gap=gap, context=self.ctx, **kw)
        self.calls, self.seq = [], 0
        self.before0 = {}

    def id(self, x):
        if id(x) not in self.ids:
            self.keep.append(x)
            self.ids[id(x)] = len(self.keep)
        return self.ids[id(x)]

    def call(self, pop):
        g, isl = self.ctx["leap"]["generation"], self.ctx["leap"]["current_subpopulation"]
        before = [self.id(x) for x in pop]
        snap = [(x, x.fitness, [int(v) for v in x.genome], x.uuid) for x in pop]
        self.evs = []
        out = self.op(pop)
        self.seq += 1
        un = all(repr(x.fitness) == repr(f) and [int(v) for v in x.genome] == ge and x.uuid == u for x, f, ge, u in snap)
        self.calls.append(dict(g=g, isl=isl, seq=self.seq, before=before, evs=self.evs, after=[self.id(x) for x in out]))
        self.ok = getattr(self, "ok", True) and un
        return out

    def vals(self):
        return [drv.num(x.fitness) for x in self.keep]


def scripted(rng):
    def emig(pop):
        while True:
            yield pop[rng.randrange(len(pop))]

    def repl(pop, indices=None):
        while True:
            k = rng.randrange(len(pop))
            indices.clear()
            indices.append(k)
            yield pop[k]
    return emig, repl


REAL = [(lambda p: ops.tournament_selection(p), lambda p, indices=None: ops.random_selection(p, indices=indices)),
        (lambda p: ops.naive_cyclic_selection(p), lambda p, indices=None: ops.tournament_selection(p, select_worst=True, indices=indices)),
        (lambda p: ops.truncation_selection(p, size=1).__iter__(), lambda p, indices=None: ops.naive_cyclic_selection(p, indices=indices))]


def history(nb, gap, gens, mx, mode, withmetric, sel, start=0, big=1, vals=(0, 1, 2, 3)):
    sels = scripted(R.rng) if sel == 0 else REAL[(sel - 1) % 3]
    r = Rig(nb, gap, mx, mode, withmetric, sels, R.rng)
    pops, tail = [], [0] * R.rng.choice([0, 0, 5, 30, 150])
    for j in range(len(nb)):
        pop = []
        for k in range(R.rng.randint(1, 3 * big)):
            x = Individual(np.array([j, k, R.rng.randint(0, 99)] + tail), IdentityDecoder(), r.prob)
            x.fitness = R.rng.choice(vals)
            pop.append(x)
        pops.append(pop)
    r.ctx["leap"]["subpopulations"] = pops
    for g in range(start, start + gens):
        r.ctx["leap"]["generation"] = g
        for j in range(len(nb)):
            r.ctx["leap"]["current_subpopulation"] = j
            if sel == 0 and g and R.rng.random() < .4:    # ordinary evolution in between replaces members
                x = Individual(np.array([j, 7, R.rng.randint(0, 99)] + tail), IdentityDecoder(), r.prob)
                x.fitness = R.rng.choice(vals)
                pops[j] = list(pops[j])
                pops[j][R.rng.randrange(len(pops[j]))] = x
            pops[j] = r.call(pops[j])
    return dict(calls=r.calls, val=r.vals(), unaltered=r.ok)


for k, g in enumerate(R.gen()):
    mx, mode, wm = k % 2 == 0, ["id", "replace", "change"][k % 3], k % 4 != 1
    R.case("history", history, g["nb"], g["gap"], 5, mx, mode, wm, k % 4, [0, 0, 1][k % 3], nb=g["nb"], gap=g["gap"], max=mx, metric=wm, mode=mode)
for k in range(300 if R.thorough else 40):
    n = R.rng.randint(2, 6)
    nb = [sorted(R.rng.sample(range(n), R.rng.randint(1, n))) for _ in range(n)]
    gap, mx, mode, wm = R.rng.randint(1, 4), R.rng.random() < .5, R.rng.choice(["id", "replace", "change"]), R.rng.random() < .7
    R.case("history", history, nb, gap, 10, mx, mode, wm, R.rng.randint(0, 3), 0, nb=nb, gap=gap, max=mx, metric=wm, mode=mode)

for k in range(100 if R.thorough else 16):       # many islands, long runs, wide gaps, failed individuals
    n = R.rng.randint(2, 12)
    nb = [sorted(R.rng.sample(range(n), R.rng.randint(min(1, k % 4), n))) for _ in range(n)]
    gap, mx, mode, wm = R.rng.choice([1, 2, 5, 7, 13, 20]), R.rng.random() < .5, R.rng.choice(["id", "replace", "change"]), R.rng.random() < .7
    R.case("history", history, nb, gap, 30, mx, mode, wm, k % 4, R.rng.choice([0, 0, 3, 90]), 5, (float("nan"), 0, 1, 2, 3, 500, -20.), nb=nb, gap=gap, max=mx, metric=wm, mode=mode)


for n in (12, 25):       # many arrivals at once
    nb = [[0] for _ in range(n)]
    R.case("history", history, nb, 1, 4, True, "id", True, 0, 0, 3, nb=nb, gap=1, max=True, metric=True, mode="id")


for k in range(8 if R.thorough else 2):       # large islands
    nb = [[1], [0, 1]]
    R.case("history", history, nb, 1, 12, k % 2 == 0, "id", True, k % 4, 0, 90, nb=nb, gap=1, max=k % 2 == 0, metric=True, mode="id")


def routes(nb, gens):
    r = Rig(nb, 1, True, "id", False, scripted(R.rng), R.rng)
    pops = [mk.pop_of([1, 2]) for _ in nb]
    for g in range(gens):
        r.ctx["leap"]["generation"] = g
        for j in range(len(nb)):
            r.ctx["leap"]["current_subpopulation"] = j
            pops[j] = r.op(pops[j])
        r.evs.clear()
    return dict(counts=[[r.routes.get((s, d), 0) for d in nb[s]] for s in range(len(nb))])


for nb in ([[1], [0]], [[1, 2], [0, 2], [0, 1]], [[1, 2, 3], [0], [1, 3], [0, 1, 2, 3]], [[0, 1], [1, 0]], [[d for d in range(9) if d != s] for s in range(9)]):
    R.case("routes", routes, nb, 2000)


def undirected(kind, gens):
    t = {"complete": nx.complete_graph(4), "cycle": nx.cycle_graph(4), "star": nx.star_graph(3), "path": nx.path_graph(4)}[kind]
    nb = [sorted(t.neighbors(j)) for j in range(4)]
    r = Rig(nb, 1, True, "id", False, scripted(R.rng), R.rng, topo=t)
    pops = [mk.pop_of([1, 2]) for _ in nb]
    for g in range(gens):
        r.ctx["leap"]["generation"] = g
        for j in range(4):
            r.ctx["leap"]["current_subpopulation"] = j
            pops[j] = r.op(pops[j])
    return dict(counts=[[r.routes.get((s, d), 0) for d in nb[s]] for s in range(4)], stray=sum(v for (s, d), v in r.routes.items() if d not in nb[s]))


for kind in ("complete", "cycle", "star", "path"):
    R.case("routes", undirected, kind, 1500)


def inrun(n, gap, gens, mx, mode, sel):
    """migrate() inside multi_population_ea, together with real variation operators."""
    nb = [[(j + 1) % n] for j in range(n)]
    sels = scripted(R.rng) if sel == 0 else REAL[(sel - 1) % 3]
    r = Rig(nb, gap, mx, mode, True, sels, R.rng, topo=nx.cycle_graph(n, create_using=nx.DiGraph))
    prob = FunctionProblem(lambda p: int(sum(p)), maximize=mx)
    from leap_ec.binary_rep.initializers import create_binary_sequence
    from leap_ec.binary_rep.ops import mutate_bitflip
    multi_population_ea(max_generations=gens, num_populations=n, pop_size=3, problem=prob, representation=Representation(initialize=create_binary_sequence(4)),
                        shared_pipeline=[ops.tournament_selection, ops.clone, mutate_bitflip(expected_num_mutations=1), ops.evaluate, ops.pool(size=3), r.call], context=r.ctx)
    return dict(calls=r.calls, val=r.vals(), unaltered=r.ok, nb=nb)


for k in range(60 if R.thorough else 12):
    n, gap, mx = 2 + k % 3, 1 + k % 4, k % 2 == 0
    R.case("history", inrun, n, gap, 8, mx, ["id", "replace"][k % 2], k % 4, gap=gap, max=mx, metric=True)


def metric_csv(header, notes):
    s = io.StringIO()
    m = ops.migration_metric(s, header=header, notes=notes) if (notes is not None or not header) else ops.migration_metric(s)
    P = mk.pop_of([1, 5, 3, 4], conv=int)
    att = [(0, 0, 1, False), (3, 2, 3, False), (7, 1, 2, True), (7, 3, 3, True)]
    for g, a, b, ok in att:
        m(g, P[a], P[b], ok)
    lines = list(csv.reader(io.StringIO(s.getvalue())))
    names = list((notes or {}).keys()) + ["generation", "migrant_fitness", "contestant_fitness", "success"]
    want = [[str(v) for v in (notes or {}).values()] + [str(g), str(P[a].fitness), str(P[b].fitness), str(ok)] for g, a, b, ok in att]
    return dict(rows=lines[1:] if header else lines, want=want, header=lines[0] if header else [], wantheader=names if header else [])


for header in (True, False):
    for notes in (None, {"run": 3}, {"a": "x", "b": 2}):
        R.case("csv", metric_csv, header, notes)
R.close()
