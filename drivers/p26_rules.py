import math, itertools
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.pause = lambda *a, **k: None
import drv, mk
import numpy as np
from gymnasium import spaces
from leap_ec.individual import Individual
from leap_ec.executable_rep.rules import PittRulesDecoder, PittRulesExecutable, PlotPittRuleProbe
R = drv.Rec()
rr = R.rng


def insp(n, style=0, lo=-10, hi=10):
    shp = [(n,), (1, n)][style % 2]
    return spaces.Box(low=lo, high=hi, shape=shp, dtype=[np.float32, np.float64][style // 2 % 2])


def outsp(m):
    return spaces.Discrete(9) if m == 1 else spaces.MultiDiscrete([9] * m)


def genome_of(conds, nout, style, acts=None):
    """integer condition genes; action genes in tenths"""
    g = []
    for k, c in enumerate(conds):
        a = acts[k] if acts else [((3 * k + j) % 8 + 1) * 10 + [0, 3, -3, 4][(k + style) % 4] for j in range(nout)]
        g.append([v for p in c for v in p] + a)
    return g


def real(g, nin, style):
    segs = [np.array([float(v) for v in s[:2 * nin]] + [v / 10 for v in s[2 * nin:]]) for s in g]
    return segs if style % 2 else np.array(segs)


def dec(g, nin, nout, style):
    return PittRulesDecoder(input_space=insp(nin, style), output_space=outsp(nout), **(dict(priority_metric=PittRulesExecutable.PriorityMetric.RULE_ORDER) if style % 3 == 0 else {}))


def fire(g, nin, nout, ins, many, style):
    D = dec(g, nin, nout, style)
    G = real(g, nin, style)
    before = [list(map(float, s)) for s in G]
    E = Individual(G, D).decode() if style % 4 == 1 else D.decode(G)
    got = [set() for _ in ins]
    for r in range((300 if many == 2 else 100) if many else 3):
        for k, v in enumerate(ins):
            x = [np.array(v, dtype=float), list(v), np.array([v]), tuple(v)][(r + k) % 4]
            o = E(x)
            got[k].add(tuple(drv.nums(o if nout > 1 else [o])))
    return dict(got=[[list(t) for t in sorted(s)] for s in got], same=[list(map(float, s)) for s in G] == before)


def decode(g, nin, nout, style):
    D = dec(g, nin, nout, style)
    G = real(g, nin, style)
    before = [list(map(float, s)) for s in G]
    rules = D.genome_to_rules(G)
    return dict(rules=[dict(c=[[drv.num(a), drv.num(b)] for a, b in r.conditions], a=[drv.num(round(float(x) * 10, 6)) for x in r.actions]) for r in rules], same=[list(map(float, s)) for s in G] == before)


def init(shape, lo, hi, n, nrules, N):
    L, H = np.array(lo, dtype=float).reshape(shape) / 100, np.array(hi, dtype=float).reshape(shape) / 100
    sp = spaces.Box(low=L, high=H, dtype=np.float64)
    sp.seed(rr.randint(0, 10 ** 6))
    out = spaces.Discrete(n)
    out.seed(rr.randint(0, 10 ** 6))
    D = PittRulesDecoder(input_space=sp, output_space=out)
    mk_ = D.initializer(num_rules=nrules)
    nin = len(lo)
    ok, genes, gs = True, [], []
    for _ in range(N):
        g = mk_()
        gs.append(g)
        ok &= len(g) == nrules
        for s in g:
            ok &= len(s) == 2 * nin + 1
            genes.append([float(v) for v in s])
    B = D.bounds(nrules)
    ok &= len(B) == nrules and all(len(b) == 2 * nin + 1 for b in B)
    abound = [[drv.num(b[-1][0]), drv.num(b[-1][1])] for b in B] + [[drv.num(v) for v in D.action_bounds[0]]]
    ok &= all(list(b) == list(B[0]) for b in B) and [tuple(b) for b in B[0][:-1]] == [tuple(b) for b in D.condition_bounds]
    A = np.array(genes)
    rnd = lambda v: int(round(float(v) * 100))
    flat = list(itertools.chain(*gs))
    indep = not any(np.shares_memory(a, b) for a, b in zip(flat, flat[1:]) if isinstance(a, np.ndarray))
    dup = [v for v in lo for _ in (0, 1)]
    duph = [v for v in hi for _ in (0, 1)]
    return dict(abound=abound, shape=bool(ok), min=[math.floor(v * 100 + 1e-6) for v in A.min(0)[:-1]], max=[math.ceil(v * 100 - 1e-6) for v in A.max(0)[:-1]], lo=dup, hi=duph,
                blo=[rnd(b[0]) for b in B[-1][:-1]], bhi=[rnd(b[1]) for b in B[-1][:-1]], actions=sorted({drv.num(v) for v in A[:, -1]}), indep=indep)


def mutate(g, nin, nout, style):
    D = PittRulesDecoder(input_space=insp(nin, style), output_space=outsp(nout))
    ind = Individual(np.array(g, dtype=float) if style % 2 else [np.array(s, dtype=float) for s in g], D)
    ind.fitness = 3.0
    cc, ac = [], []

    def cm(x):
        cc.append(drv.nums(x))
        return np.asarray(x) + 100

    def am(x):
        ac.append(drv.nums(x))
        return np.asarray(x) + 1000
    was = type(ind.genome)
    out = next(D.mutator(cm, am)(iter([ind])))
    return dict(out=[drv.nums(s) for s in out.genome], nofit=out.fitness is None, same=out is ind and type(out.genome) is was, ccalls=cc, acalls=ac)


def dims(nin, nout, style):
    D = PittRulesDecoder(input_space=insp(nin, style), output_space=outsp(nout))
    return dict(got=[D.num_inputs, D.num_outputs, D.num_memory_registers, D.num_genes_per_rule], want=[nin, nout, 0, 2 * nin + nout])


def plot(pops, gens, modulo, style, nin=2, dims_=None):
    """pops: per generation a list of (fitness, genome)"""
    D = PittRulesDecoder(input_space=insp(nin, style), output_space=outsp(1))
    ctx = {"leap": {}}
    fig, ax = plt.subplots()
    try:
        pr = PlotPittRuleProbe(D, ax=ax, xlim=(0, 5), ylim=(0, 4), context=ctx, **({} if modulo == 1 else dict(modulo=modulo)), **({} if dims_ is None else dict(plot_dimensions=dims_)))
        due, best, same = 0, [], True
        for k, pop in enumerate(pops):
            P = mk.pop_of([f for f, _ in pop])
            for x, (_, g) in zip(P, pop):
                x.genome = real(g, nin, style)
            ctx["leap"]["generation"] = gens[k]
            out = pr(P)
            same &= len(out) == len(P) and all(a is b for a, b in zip(out, P))
            best.append(max(pop, key=lambda t: t[0])[1])
            if gens[k] % modulo == 0:
                due = k + 1
        return dict(genomes=best, due=due, same=same, lim=[[0, 5], [0, 4]], reds=[bool(tuple(p.get_edgecolor())[:3] == (1., 0., 0.)) for p in ax.patches], blues=[bool(tuple(p.get_edgecolor())[:3] == (0., 0., 1.)) for p in ax.patches], boxes=[[drv.num(p.get_x()), drv.num(p.get_y()), drv.num(p.get_width()), drv.num(p.get_height())] for p in ax.patches])
    finally:
        plt.close(fig)


k = 0
for c in R.gen():
    nin, conds = c["nin"], c["conds"]
    k += 1
    g = genome_of(conds, 1, k)
    ins = [[a] for a in range(4)] if nin == 1 else [list(p) for p in itertools.product(range(0, 4), repeat=2)]
    if nin == 2:
        ins = rr.sample(ins, 5)
    many = k % (6 if R.thorough else 3) == 0
    R.case("fire", fire, g, nin, 1, ins, many, k, genome=g, nin=nin, ins=ins, many=many)
    if k % 7 == 0:
        R.case("decode", decode, g, nin, 1, k, genome=g, nin=nin)
for j in range(800 if R.thorough else 120):
    nin, nout, nr = rr.randint(1, 4), rr.randint(1, 3), rr.randint(1, 5)
    conds = [[[rr.randint(-4, 4), rr.randint(-4, 4)] if rr.random() < .3 else sorted(rr.sample(range(-4, 5), 2)) for _ in range(nin)] for _ in range(nr)]
    g = genome_of(conds, nout, j)
    ins = [[rr.randint(-6, 6) for _ in range(nin)] for _ in range(3)]
    many = j % 5 == 0
    R.case("fire", fire, g, nin, nout, ins, many, j, genome=g, nin=nin, ins=ins, many=many)
    R.case("decode", decode, g, nin, nout, j, genome=g, nin=nin)
    h = [[rr.randint(0, 9) for _ in range(2 * nin + nout)] for _ in range(nr)]
    R.case("mutate", mutate, h, nin, nout, j, genome=h, nin=nin)
for j in range(100 if R.thorough else 20):       # large rule sets
    nin, nout, nr = rr.choice([1, 3, 8]), rr.choice([1, 2, 6]), rr.choice([12, 30])
    conds = [[[rr.randint(-40, 40), rr.randint(-40, 40)] if rr.random() < .3 else sorted(rr.sample(range(-40, 41), 2)) for _ in range(nin)] for _ in range(nr)]
    g = genome_of(conds, nout, j)
    ins = [[rr.randint(-50, 50) for _ in range(nin)] for _ in range(3)]
    R.case("fire", fire, g, nin, nout, ins, False, j, genome=g, nin=nin, ins=ins, many=False)
    R.case("decode", decode, g, nin, nout, j, genome=g, nin=nin)
    h = [[rr.randint(0, 9) for _ in range(2 * nin + nout)] for _ in range(nr)]
    R.case("mutate", mutate, h, nin, nout, j, genome=h, nin=nin)
for j in range(12 if R.thorough else 4):          # many equally close rules, none matching
    nin = 1 + j % 3
    conds = [[[2, 4]] * nin for _ in range(8)]
    g, ins = genome_of(conds, 1, j), [[6 + j] * nin, [-3] + [3] * (nin - 1), [3] * nin]
    R.case("fire", fire, g, nin, 1, ins, 2, j, genome=g, nin=nin, ins=ins, many=True)
for nin in (1, 2, 3):
    for nout in (1, 2, 3):
        for s in (0, 1):
            R.case("dims", dims, nin, nout, s)
for shape, lo, hi in (((1,), [0], [100]), ((2,), [0, 1000], [100, 3000]), ((1, 2), [0, 1000], [100, 3000]), ((2, 2), [0, 500, -900, 100], [100, 700, -800, 150]), ((3,), [-100, 0, 200], [0, 100, 400])):
    for nr in (1, 3):
        for n in (2, 4):
            R.case("init", init, shape, lo, hi, n, nr, 150, nin=len(lo), n=n)
for j in range(60 if R.thorough else 18):
    T = rr.randint(1, 4)
    modulo = rr.randint(1, 3)
    gens = list(range(j % 3, j % 3 + T))
    nin = rr.choice([2, 2, 3, 4])
    dd = None if j % 3 == 0 else tuple(rr.sample(range(nin), 2))
    pops = [[(f, genome_of([[[rr.randint(0, 4), rr.randint(0, 4)] for _ in range(nin)] for _ in range(3)][:rr.randint(1, 3)], 1, j, [[rr.choice([0, 3, -3, 10, 13, 20, 7])] for _ in range(3)])) for f in rr.sample(range(9), 3)] for _ in range(T)]
    R.case("plot", plot, pops, gens, modulo, j, nin, dd, nin=nin, dx=1 + (dd or (0, 1))[0], dy=1 + (dd or (0, 1))[1])
R.close()
