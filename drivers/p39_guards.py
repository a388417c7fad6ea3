"""Every guarded entry point is called with the argument combinations of the specification; a refusal is any ordinary
exception.  touched: the refused call consumed or changed something of the caller's."""
import drv, copy, io, os, warnings
import numpy as np, pandas as pd
from gymnasium import spaces
from matplotlib import pyplot as plt
from leap_ec import ops, problem as lp, algorithm, representation
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.binary_rep import ops as bops, problems as bp, decoders as bd
from leap_ec.int_rep import ops as iops
from leap_ec.real_rep import ops as rops, problems as rp
from leap_ec.segmented_rep import ops as sops
from leap_ec.executable_rep import cgp, rules, neural_network as nn, problems as xp, executable
from leap_ec.multiobjective import problems as mop
from leap_ec.landscape_features import exploratory
from leap_ec.contrib.analysis import CurveAnalyzer
from leap_ec.contrib.transfer import sequential
warnings.simplefilter("ignore")
R = drv.Rec()
N = -99
opt = lambda x: None if x == N else x


class Src:
    def __init__(self, inds):
        self.it, self.n = iter(inds), 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return next(self.it)


def attempt(f, touched=lambda: False, after=lambda: True):
    """f returns truth when the permitted call produced a result."""
    try:
        works = bool(f())
        ref = False
    except drv.Hang:
        raise
    except Exception:
        works, ref = False, True
    t = bool(touched()) if ref else False
    try:
        aft = bool(after())
    except drv.Hang:
        raise
    except Exception:
        aft = False
    return dict(refused=ref, works=works, touched=t, after=aft)


def mutation(op, form, prob, exp, typ):
    p, e = (None if prob == N else prob / 10), opt(exp)
    g0 = [1, 0, 1]
    g = np.array(g0) if typ == 0 else list(g0)
    ind = Individual(g)
    ind.fitness = 4
    bounds = [(0, 1)] * 3
    badargs = (p is None) == (e is None) or (p is not None and not 0 <= p <= 1)
    if form == 1:
        kw = dict(probability=p, expected_num_mutations=e)
        o = {1: lambda k: bops.mutate_bitflip(**k), 2: lambda k: iops.mutate_randint(bounds=bounds, **k), 3: lambda k: iops.mutate_binomial(std=1, bounds=bounds, **k)}[op]
        src = Src([ind])
        # unusable arguments are noticed before an individual is pulled; a genome of the wrong type only once it is there
        return attempt(lambda: next(o(kw)(src)) is ind, lambda: list(ind.genome) != g0 or ind.fitness != 4 or (badargs and src.n > 0),
                       lambda: len(next(o(dict(expected_num_mutations=1))(iter([Individual(np.array(g0))]))).genome) == 3)
    kw = dict(probability=p, expected_num_mutations=e)
    o = {1: lambda k, x: bops.genome_mutate_bitflip(x, **k), 2: lambda k, x: iops.individual_mutate_randint(x, bounds, **k), 3: lambda k, x: iops.genome_mutate_binomial(std=1, bounds=bounds, **k)(x)}[op]
    return attempt(lambda: len(o(kw, g)) == 3, lambda: list(g) != g0, lambda: len(o(dict(expected_num_mutations=1), np.array(g0))) == 3)


def gaussian(form, exp, std, typ):
    e = {N: None, 1: 1, 100: "isotropic"}[exp]
    s = {N: None, 50: [0.5, 1.0]}.get(std, std)
    g0 = [1.0, -1.0]
    g = np.array(g0) if typ == 0 else list(g0)
    ind = Individual(g)
    ind.fitness = 4
    if form == 1:
        src = Src([ind])
        return attempt(lambda: next(rops.mutate_gaussian(src, std=s, expected_num_mutations=e)) is ind, lambda: list(ind.genome) != g0 or ind.fitness != 4)
    return attempt(lambda: len(rops.genome_mutate_gaussian(g, std=s, expected_num_mutations=e)) == 2, lambda: list(g) != g0)


def binomial_n(std, n):
    g = np.array([5, 5])
    return attempt(lambda: len(iops.genome_mutate_binomial(std=std, bounds=[(0, 9)] * 2, expected_num_mutations=2, n=n)(g)) == 2, lambda: g.tolist() != [5, 5])


def individual(dt, pt):
    return attempt(lambda: Individual(np.array([1]), decoder=IdentityDecoder if dt else IdentityDecoder(), problem=bp.MaxOnes if pt else bp.MaxOnes()).genome is not None)


def phenome_type(k, typ):
    P = [lambda: bp.MaxOnes(), lambda: bp.LeadingOnes(), rp.GriewankProblem, rp.AckleyProblem, rp.WeierstrassProblem, rp.LangermannProblem, lambda: rp.LunacekProblem(N=2), rp.SchwefelProblem,
         rp.GaussianProblem, lambda: rp.CosineFamilyProblem(1.0, [2, 2], [2, 2]), lambda: rp.TranslatedProblem(rp.SpheroidProblem(), [1, 1]), lambda: rp.ScaledProblem(rp.SpheroidProblem(), [0, 1])]
    p = P[k - 1]()
    x = [1, 0] if k <= 2 else [0.5, 0.25]
    x0 = list(x)
    v = np.array(x) if typ == 0 else x
    return attempt(lambda: np.isfinite(p.evaluate(v)), lambda: list(v) != x0, lambda: np.isfinite(p.evaluate(np.array(x0))))


def phenome_length(k, n, m):
    P = [lambda: bp.MaxOnes(target_string=np.array([1, 0, 1, 1][:n])), lambda: bp.LeadingOnes(target_string=np.array([1, 0, 1, 1][:n])),
         lambda: rp.LangermannProblem(m=2, c=(1, 2), a=[[1, 2, 3, 4][:n], [4, 3, 2, 1][:n]]), lambda: rp.TranslatedProblem(rp.SpheroidProblem(), [1.0] * n),
         lambda: rp.MatrixTransformedProblem(rp.SpheroidProblem(), np.identity(n)), lambda: rp.QuadraticFamilyProblem([np.identity(n)], [np.identity(n)], [np.zeros(n)], [0]), rp.ShekelProblem]
    p = P[k - 1]()
    x = np.array([1, 0, 1, 1][:m] if k <= 2 else [1.0, 0.5, 0.25, 0.75][:m])
    d = 2 if k == 7 else n
    return attempt(lambda: np.isfinite(p.evaluate(x)), lambda: False, lambda: np.isfinite(p.evaluate(np.ones(d, dtype=x.dtype))))


def scaled(has):
    class P(lp.ScalarProblem):
        def evaluate(self, x):
            return 1.0
    q = P(True)
    if has:
        q.bounds = [0, 2]
    return attempt(lambda: rp.ScaledProblem(q, [0, 1]).evaluate(np.array([0.5])) == 1.0, lambda: hasattr(q, "bounds") != bool(has))


def langermann(m, cd, ad, rows):
    c = np.arange(1, m + 1) if cd == 1 else np.ones((m, 2))
    a = np.ones((rows, 2)) if ad == 2 else np.ones(rows)
    return attempt(lambda: np.isfinite(rp.LangermannProblem(m=m, c=c, a=a).evaluate(np.array([1.0, 2.0]))))


class Env:
    observation_space = action_space = spaces.Discrete(3)

    def __init__(self):
        self.resets = 0

    def reset(self):
        self.resets += 1
        return 0, {}

    def step(self, a):
        return 0, 1.0, False, False, {}


def environment(runs, steps, ft):
    e = Env()
    return attempt(lambda: xp.EnvironmentProblem(runs, steps, e, {1: "reward", 2: "survival", 3: "style"}[ft], gui=False).evaluate(lambda o: 0) is not None, lambda: e.resets > 0)


def pitt_rules(n, pm):
    M = rules.PittRulesExecutable.PriorityMetric
    i, o = spaces.Box(low=0, high=1.0, shape=(1, 2), dtype=np.float32), spaces.Discrete(3)
    rs = [rules.Rule([(0.0, 1.0), (0.0, 1.0)], [k % 3]) for k in range(n)]
    return attempt(lambda: rules.PittRulesExecutable(i, o, rs, {1: M.RULE_ORDER, 2: M.GENERALITY, 3: M.PERIMETER, 4: "speed"}[pm])([0.5, 0.5]) is not None, lambda: len(rs) != n)


def pitt_memory(k):
    i, o = spaces.Box(low=0, high=1.0, shape=(1, 2), dtype=np.float32), spaces.Discrete(3)
    d = rules.PittRulesDecoder(i, o, memory_space=None if k == 0 else spaces.Box(low=0, high=1.0, shape=(k,), dtype=np.float32))
    return attempt(lambda: len(d.bounds(num_rules=2)) == 2)


PRIMS = [cgp.NAND(), cgp.NotX()]


def cgp_(np_, i, o, l, n, ar, kind):
    if kind == 1:
        return attempt(lambda: cgp.CGPDecoder(primitives=PRIMS[:np_], num_inputs=i, num_outputs=o, num_layers=l, nodes_per_layer=n, max_arity=ar).num_genes() > 0)
    return attempt(lambda: cgp.CGPWithParametersDecoder(primitives=PRIMS[:np_], num_inputs=i, num_outputs=o, num_layers=l, nodes_per_layer=n, max_arity=ar, num_parameters_per_node=1) is not None)


def cgp_genome(dl, kind):
    kw = dict(primitives=PRIMS, num_inputs=2, num_outputs=1, num_layers=1, nodes_per_layer=2, max_arity=2)
    if kind == 1:
        d = cgp.CGPDecoder(**kw)
        L = d.num_genes()
        g = np.array([0] * (L + dl))
        return attempt(lambda: d.decode(g) is not None, lambda: len(g) != L + dl, lambda: d.decode(np.array([0] * L)) is not None)
    d = cgp.CGPWithParametersDecoder(num_parameters_per_node=2, **kw)
    L = cgp.CGPDecoder(**kw).num_genes()
    return attempt(lambda: d.decode([np.array([0] * L), np.array([0] * (4 + dl))]) is not None, lambda: False, lambda: d.decode([np.array([0] * L), np.array([0] * 4)]) is not None)


def network(nl, dl):
    def f():
        d = nn.SimpleNeuralNetworkDecoder(shape=[2, 3, 2, 1][:nl])
        return len(d.decode([0.5] * (d.length + dl))([1.0, 2.0])) > 0
    return attempt(f)


def segments3(w, pos, gray):
    segs = [(2, 0, 1)] * 4
    segs[pos - 1] = (2, 0, 1, 3, 4)[:w]
    return attempt(lambda: len((bd.BinaryToRealGreyDecoder if gray == 2 else bd.BinaryToRealDecoder)(*segs).decode(np.array([0, 1] * 4))) == 4)


def decode_type(typ, k):
    d = [lambda: bd.BinaryToIntDecoder(2, 2), lambda: bd.BinaryToIntGreyDecoder(2, 2), lambda: bd.BinaryToRealDecoder((2, 0, 1), (2, 0, 1)), lambda: bd.BinaryToRealGreyDecoder((2, 0, 1), (2, 0, 1))][k - 1]()
    g = [0, 1, 1, 0]
    v = g if typ else np.array(g)
    return attempt(lambda: len(d.decode(v)) == 2, lambda: list(v) != [0, 1, 1, 0], lambda: len(d.decode(np.array([0, 1, 1, 0]))) == 2)


def islands(nr, np_):
    made = []

    def init():
        made.append(1)
        return np.array([0, 1])
    reps = [representation.Representation(initialize=init) for _ in range(nr)]
    return attempt(lambda: len(algorithm.multi_population_ea(max_generations=0, num_populations=nr, pop_size=2, problem=[bp.MaxOnes() for _ in range(np_)], representation=reps,
                                                        shared_pipeline=[ops.tournament_selection, ops.clone, ops.evaluate, ops.pool(size=2)])) == nr, lambda: bool(made))


def stop(k):
    c = {"leap": {"generation": 0}}
    return attempt(lambda: isinstance(algorithm.stop_at_generation(k, context=c)([]), bool), lambda: c != {"leap": {"generation": 0}})


def alternating(n, m):
    c = {"leap": {"generation": 3}}
    return attempt(lambda: lp.AlternatingProblem([bp.MaxOnes() for _ in range(n)], m, context=c).evaluate(np.array([1, 1])) == 2)


def average(n):
    return attempt(lambda: lp.AverageFitnessProblem(bp.MaxOnes(), n).evaluate(np.array([1, 1])) == 2)


def coop(n):
    return attempt(lambda: lp.CooperativeProblem(bp.MaxOnes(), n, ops.random_selection, combined_decoder=IdentityDecoder()) is not None)


def segmented(ns, nm):
    ind = Individual([np.array([0, 1]) for _ in range(ns)])
    ind.fitness = 3
    called = []

    def mut(s):
        called.append(1)
        return s
    return attempt(lambda: next(sops.segmented_mutate(iter([ind]), [mut] * nm)) is ind and len(called) == ns, lambda: bool(called) or ind.fitness != 3 or len(ind.genome) != ns)


def indices(k):
    pop = [Individual(np.array([1]), problem=bp.MaxOnes()) for _ in range(2)]
    Individual.evaluate_population(pop)
    ix = [None, [7], (7,), np.array([7])][k]
    return attempt(lambda: next(ops.tournament_selection(pop, indices=ix)) in pop, lambda: ix is not None and list(ix) != [7])


def grouped(*ps):
    evals = []

    class P(lp.ScalarProblem):
        def evaluate(self, x, *a, **k):
            evals.append(1)
            return 1
    P2 = {1: P(True), 2: P(True)}
    pop = [Individual(np.array([1]), problem=P2[p]) for p in ps]
    return attempt(lambda: all(i.fitness == 1 for i in ops.grouped_evaluate(pop)), lambda: bool(evals) or any(i.fitness is not None for i in pop))


def quadratic(a, b, c, d):
    I = np.identity(2)
    return attempt(lambda: rp.QuadraticFamilyProblem([I] * a, [I] * b, [np.zeros(2)] * c, [0] * d).num_basins == a)


def basins(nb, ng, rw, ro):
    return attempt(lambda: rp.QuadraticFamilyProblem.generate(2, nb, num_global_optima=ng, width_bounds=(5, 1) if rw else (1, 5), offset_bounds=(10, -10) if ro else (-10, 10)).num_basins == nb)


def convexity(n, t):
    rep = representation.Representation(initialize=lambda: np.array([0.5, 0.5]))
    rng = np.random.default_rng(5)
    pop = [Individual(rng.random(2), problem=rp.SpheroidProblem()) for _ in range(n)]
    Individual.evaluate_population(pop)
    return attempt(lambda: exploratory.ELAConvexity(problem=rp.SpheroidProblem(), representation=rep, design_individuals=pop, num_convexity_tests=t) is not None, lambda: len(pop) != n)


def curves(t, r, m, e, nm, ne):
    cols = dict(step=[0, 1], run=[0, 0], fit=[1.0, 2.0], exp=["a", "a"], oth=[1, 1])
    for flag, c in ((t, "step"), (r, "run"), (m, "fit"), (e, "exp")):
        if not flag:
            del cols[c]
    df = pd.DataFrame(cols)
    before = list(df.columns)
    return attempt(lambda: CurveAnalyzer(df, time_col="step", metric_cols=["fit", "oth"][:nm], experiment_cols=["exp"][:ne], run_col="run") is not None, lambda: list(df.columns) != before)


def plot(k):
    n = len(plt.get_fignums())
    try:
        return attempt(lambda: rp.plot_2d_problem(rp.SpheroidProblem(), kind={1: "surface", 2: "contour", 3: "pie"}[k], xlim=(0, 1), ylim=(0, 1), granularity=0.5) is not None, lambda: len(plt.get_fignums()) != n)
    finally:
        plt.close("all")


def bernoulli(k):
    return attempt(lambda: len(ops.random_bernoulli_vector(4, p=k / 10)) == 4)


def truth_table(i, o, c):
    return attempt(lambda: xp.TruthTableProblem((lambda x: [all(x)]) if c else 7, i, o).evaluate(lambda x: [all(x)]) == 1.0)


def repertoire(n, k):
    called = []

    def alg(p, init, **kw):
        called.append(p)
        return [(0, Individual(np.array([1])))]
    r = sequential.PopulationSeedingRepertoire(initialize=lambda: np.array([0]), algorithm=alg)
    return attempt(lambda: r.build_repertoire(list(range(n)), None if k == N else [{} for _ in range(k)]) is None and len(r.repertoire) == n, lambda: bool(called) or bool(r.repertoire))


class Two(mop.MultiObjectiveProblem):
    def evaluate(self, x):
        return x


def objectives(n):
    return attempt(lambda: Two([True] * n) is not None)


def gaussian_width(w):
    return attempt(lambda: np.isfinite(rp.GaussianProblem(width=w).evaluate(np.array([1.0]))))


def cosine(a, b):
    return attempt(lambda: np.isfinite(rp.CosineFamilyProblem(1.0, [2] * a, [2] * b).evaluate(np.array([0.3] * a))))


def keyboard(k):
    return attempt(lambda: executable.KeyboardExecutable(None, spaces.Box(low=0, high=1.0, shape=(k,), dtype=np.float32)) is not None)


def rule_plot(k):
    i, o = spaces.Box(low=0, high=1.0, shape=(1, k), dtype=np.float32), spaces.Discrete(3)
    d = rules.PittRulesDecoder(i, o)
    ind = Individual(np.array([[0.0, 1.0] * k + [1]]), decoder=d, problem=bp.MaxOnes())
    ind.fitness = 1
    _, ax = plt.subplots()
    c = {"leap": {"generation": 0}}
    try:
        return attempt(lambda: rules.PlotPittRuleProbe(d, ax=ax, context=c)([ind])[0] is ind and len(ax.patches) == 1, lambda: len(ax.patches) > 0)
    finally:
        plt.close("all")


FN = {"mutation": mutation, "gaussian": gaussian, "binomial-n": binomial_n, "individual": individual, "phenome-type": phenome_type, "phenome-length": phenome_length, "scaled": scaled,
      "langermann": langermann, "environment": environment, "pitt-rules": pitt_rules, "pitt-memory": pitt_memory, "cgp": cgp_, "cgp-genome": cgp_genome, "network": network, "segments3": segments3,
      "decode-type": decode_type, "islands": islands, "stop": stop, "alternating": alternating, "average": average, "coop": coop, "segmented": segmented, "indices": indices, "grouped": grouped,
      "quadratic": quadratic, "basins": basins, "convexity": convexity, "curves": curves, "plot": plot, "bernoulli": bernoulli, "truth-table": truth_table, "repertoire": repertoire,
      "objectives": objectives, "gaussian-width": gaussian_width, "cosine": cosine, "keyboard": keyboard, "rule-plot": rule_plot}
for k, g in enumerate(R.gen()):
    if g["api"] == "cgp" and not R.thorough and 0 in g["a"] and sum(x == 0 for x in g["a"][:6]) > 2:
        continue
    R.seed("guard", k)
    R.case(g["api"], FN[g["api"]], *g["a"], a=g["a"])
R.close()
