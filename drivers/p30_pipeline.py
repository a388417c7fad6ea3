import io, itertools
import drv
import numpy as np
from toolz import pipe, curry
from leap_ec import ops, probe, util
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem
from leap_ec.global_vars import context
from leap_ec.binary_rep.ops import mutate_bitflip, genome_mutate_bitflip
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec.segmented_rep.ops import apply_mutation, add_segment, remove_segment, copy_segment, segmented_mutate
from leap_ec.executable_rep import cgp
from leap_ec.multiobjective import ops as mops
R = drv.Rec()
rr = R.rng
context["leap"]["generation"] = 0
sink = io.StringIO()
cgpd = cgp.CGPDecoder(primitives=[sum], num_inputs=1, num_outputs=1, num_layers=1, nodes_per_layer=1, max_arity=1)
B = [(0, 1)] * 4
new_seg = lambda: np.array([0, 1])


def g1(x):
    return x


VARY = {"array": [lambda: mutate_bitflip(expected_num_mutations=1), lambda: mutate_randint(bounds=B, expected_num_mutations=2), lambda: mutate_binomial(std=1.0, bounds=B, expected_num_mutations=1),
                  lambda: mutate_gaussian(std=1.0, expected_num_mutations="isotropic"), lambda: mutate_gaussian(std=.5, expected_num_mutations=1)],
        "seg": [lambda: apply_mutation(mutator=genome_mutate_bitflip), lambda: add_segment(seq_initializer=new_seg, probability=.5), lambda: add_segment(seq_initializer=new_seg, probability=1.0, append=True), lambda: copy_segment(probability=.5), lambda: apply_mutation(mutator=genome_mutate_bitflip, expected_num_mutations=2)]}
PAIR = [lambda: ops.UniformCrossover(), lambda: ops.NAryCrossover(), lambda: ops.UniformCrossover(p_swap=.3, p_xover=.5), lambda: ops.NAryCrossover(num_points=1, p_xover=1.0)]


class Tap:
    """an iterator between two stages that counts what passes and remembers where each individual stems from"""
    def __init__(self, it, org):
        self.it, self.n, self.org = it, 0, org

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.it)
        self.n += 1
        note(x, self.org)
        return x


def note(x, org):
    if id(x) not in org:
        o = set()
        for u in x.parents:
            o |= org.get(u, set())
        org[id(x)] = o
        org.setdefault("keep", []).append(x)
    org.setdefault(x.uuid, org[id(x)])
    return sorted(org[id(x)])


def stages(st, fam, style):
    out, evald = [], True
    for k, s in enumerate(st):
        j = style + 3 * k
        if s == "clone":
            out.append(ops.clone)
            evald = False
        elif s == "eval":
            out.append(ops.evaluate)
            evald = True
        elif s == "vary":
            out.append(VARY[fam][j % 5]())
            evald = False
        elif s == "pair":
            out.append(PAIR[j % 4]() if fam == "array" else ops.NAryCrossover(num_points=1 + j % 2))
            evald = False
        elif evald and j % 2 and not {"vary", "pair"} & set(st[k:]):
            out.append(probe.BestSoFarIterProbe(stream=sink))
        else:
            out.append(probe.print_individual(stream=sink))
    return out


def source(fam, n, prob):
    out = []
    for k in range(n):
        g = np.array([rr.randint(0, 1) for _ in range(4)]) if fam == "array" else [np.array([rr.randint(0, 1) for _ in range(2)]) for _ in range(3)]
        x = Individual(g, IdentityDecoder(), prob)
        x.fitness = float(rr.randint(0, 5))
        out.append(x)
    return out


def endless(pop):
    yield from pop
    while True:
        yield pop[0].clone()


def flow(st, n, style, ops_=None):
    sink.seek(0), sink.truncate()
    fam = "seg" if style % 3 == 2 else "array"
    evals = [0]

    def f(x):
        evals[0] += 1
        return float(evals[0] % 7)
    prob = FunctionProblem(f, maximize=True)
    so = ops_ or stages(st, fam, style)
    pop = source(fam, 2 * n + 6, prob)
    org = {}
    for k, x in enumerate(pop):
        org[id(x)] = {k + 1}
        org[x.uuid] = {k + 1}
    org["keep"] = list(pop)
    it, taps = endless(pop), []
    for s in so:
        t = Tap(it, org)
        taps.append(t)
        it = s(t)
    if not st:
        it = iter(pop)
    early = [t.n for t in taps]
    err, res = "", []
    try:
        res = ops.pool(it, n) if style % 2 else pipe(it, ops.pool(size=n))
    except ValueError as e:
        err = str(e)[:80]
    o = [note(x, org) for x in res]
    return dict(early=early, taps=[t.n for t in taps], org=o, err=err, evals=evals[0], fresh="clone" in st, same=[id(x) for x in res] == [id(x) for x in pop[:n]] if "pair" not in st else {id(x) for x in res} <= {id(x) for x in pop[:n + 1]})


def reuse(st, n, style):
    """the same operator objects serve a second pipeline run"""
    fam = "seg" if style % 3 == 2 else "array"
    so = stages(st, fam, style)
    flow(st, n, style, so)
    return flow(st, n, style, so)


def short(st, n, src, style):
    prob = FunctionProblem(lambda x: 1.0, maximize=True)
    so = stages(st, "array", style)
    it = iter(source("array", src, prob))
    for s in so:
        it = s(it)
    try:
        res = ops.pool(it, n)
    except (StopIteration, RuntimeError):
        return dict(res="error")
    return dict(res="full" if len(res) == n else "short")


DECO = {("list", "list"): ops.listlist_op, ("list", "iter"): ops.listiter_op, ("iter", "list"): ops.iterlist_op, ("iter", "iter"): ops.iteriter_op}


def value(v):
    pop = source("array", 2, FunctionProblem(lambda x: 1.0, maximize=True))
    return {"list": lambda: pop, "gen": lambda: (x for x in pop), "listiter": lambda: iter(pop), "map": lambda: map(g1, pop), "tuple": lambda: tuple(pop),
            "curry": lambda: ops.pool(iter(pop)), "none": lambda: None, "array": lambda: np.array([1, 2]), "str": lambda: "ab", "int": lambda: 3}[v]()


def deco(ik, ok, v, r):
    ran, args = [], []
    out = value(r)
    val = value(v)

    def f(pop, a, b=None):
        ran.append(pop is val)
        args.append((a, b) == (5, "z"))
        return out
    err, res = "", None
    try:
        res = DECO[(ik, ok)](f)(val, 5, b="z")
    except Exception as e:
        err = type(e).__name__
    return dict(err=err, same=res is out, ran=ran == [True], args=all(args))


class Topo:
    pass


import networkx as nx
context["leap"]["subpopulations"], context["leap"]["current_subpopulation"] = [[], []], 0
LIB = {  # operator, input kind, output kind
    "evaluate": (lambda p: ops.evaluate, "iter", "iter"), "clone": (lambda p: ops.clone, "iter", "iter"),
    "bitflip": (lambda p: mutate_bitflip(expected_num_mutations=1), "iter", "iter"), "randint": (lambda p: mutate_randint(bounds=B, expected_num_mutations=1), "iter", "iter"),
    "binomial": (lambda p: mutate_binomial(std=1., bounds=B, expected_num_mutations=1), "iter", "iter"), "gaussian": (lambda p: mutate_gaussian(std=1., expected_num_mutations=1), "iter", "iter"),
    "apply_mutation": (lambda p: apply_mutation(mutator=genome_mutate_bitflip), "iter", "iter"), "segmented_mutate": (lambda p: segmented_mutate(mutator_functions=[g1]), "iter", "iter"),
    "add_segment": (lambda p: add_segment(seq_initializer=new_seg, probability=.5), "iter", "iter"), "remove_segment": (lambda p: remove_segment(probability=.5), "iter", "iter"), "copy_segment": (lambda p: copy_segment(probability=.5), "iter", "iter"),
    "uniform": (lambda p: ops.UniformCrossover(), "iter", "iter"), "nary": (lambda p: ops.NAryCrossover(), "iter", "iter"),
    "cgp_mutate": (lambda p: cgp.cgp_mutate(cgpd, expected_num_mutations=1), "iter", "iter"), "print_individual": (lambda p: probe.print_individual(stream=sink), "iter", "iter"),
    "grouped": (lambda p: ops.grouped_evaluate(max_individuals_per_chunk=1), "list", "list"), "const_evaluate": (lambda p: ops.const_evaluate(value=1), "list", "list"),
    "truncation": (lambda p: ops.truncation_selection(size=1), "list", "list"), "elitist": (lambda p: ops.elitist_survival(parents=p), "list", "list"), "insertion": (lambda p: ops.insertion_selection(parents=p), "list", "list"),
    "print_probe": (lambda p: probe.print_probe(probe=len, stream=sink), "list", "list"),
    "migrate": (lambda p: ops.migrate(nx.complete_graph(2), ops.random_selection, ops.random_selection, 1), "list", "list"),
    "tournament": (lambda p: ops.tournament_selection, "list", "iter"), "tournament2": (lambda p: ops.tournament_selection(k=3), "list", "iter"), "random": (lambda p: ops.random_selection, "list", "iter"),
    "naive_cyclic": (lambda p: ops.naive_cyclic_selection, "list", "iter"), "cyclic": (lambda p: ops.cyclic_selection, "list", "iter"),
    "proportional": (lambda p: ops.proportional_selection(offset="pop-min"), "list", "iter"), "sus": (lambda p: ops.sus_selection(n=2), "list", "iter"),
    "pool": (lambda p: ops.pool(size=2), "iter", "list"), "pool0": (lambda p: ops.pool(size=0), "iter", "list"),
}


def lib(name, v, style):
    mk, _, _ = LIB[name]
    pop = source("array", 2, FunctionProblem(lambda x: 1.0, maximize=True))
    err, res = "", None
    op = mk(pop)
    val = value(v)
    try:
        res = pipe(val, op) if style else op(val)
        if name in ("uniform", "nary") and v not in ("gen", "listiter", "map"):
            next(res)
    except ValueError as e:
        err = "ValueError"
    except TypeError as e:
        err = "TypeError"
    k = "list" if isinstance(res, list) else "iter" if hasattr(res, "__next__") else type(res).__name__
    return dict(err=err, r=k)


MISSING = {"gaussian": mutate_gaussian, "randint": mutate_randint, "binomial": mutate_binomial, "apply": apply_mutation, "add": add_segment, "segm": segmented_mutate}
MISSLIST = {"truncation": ops.truncation_selection, "elitist": ops.elitist_survival, "insertion": ops.insertion_selection, "const": ops.const_evaluate}
DOWN = {"pool": lambda: ops.pool(size=2), "clone": lambda: ops.clone, "evaluate": lambda: ops.evaluate, "xover": lambda: ops.UniformCrossover(), "look": lambda: probe.print_individual(stream=sink)}
DOWNL = {"trunc": lambda: ops.truncation_selection(size=1), "tour": lambda: ops.tournament_selection, "rand": lambda: ops.random_selection, "cyc": lambda: ops.cyclic_selection, "grp": lambda: ops.grouped_evaluate(max_individuals_per_chunk=1)}


def missing(up, down, islist):
    pop = source("array", 4, FunctionProblem(lambda x: 1.0, maximize=True))
    err = ""
    try:
        if islist:
            r = pipe(pop, MISSLIST[up], DOWNL[down]())
        else:
            r = pipe(pop, ops.random_selection, MISSING[up], DOWN[down]())
        if down == "xover":
            next(r)
    except Exception as e:
        err = type(e).__name__
    return dict(err=err)


for k, c in enumerate(R.gen()):
    if c["what"] == "flow":
        R.case("flow", flow, c["st"], c["n"], k, st=c["st"], n=c["n"], runs=1)
        if k % 3 == 0:
            R.case("flow", reuse, c["st"], c["n"], k, st=c["st"], n=c["n"], runs=2)
        if "look" not in c["st"] and k % 2 == 0:
            for src in range(0, c["n"] + 2):
                R.case("short", short, c["st"], c["n"], src, k, st=c["st"], n=c["n"], src=src)
    else:
        R.case("deco", deco, c["ik"], c["ok"], c["v"], c["r"], ik=c["ik"], ok=c["ok"], v=c["v"], r=c["r"])
NAMES = ["clone", "eval", "vary", "look", "pair"]
for k in range(400 if R.thorough else 80):      # long chains, large pools
    st, n = [rr.choice(NAMES) for _ in range(rr.randint(3, 9))], rr.choice([7, 12, 25, 50])
    R.case("flow", flow, st, n, k, st=st, n=n, runs=1)
    if k % 4 == 0:
        R.case("flow", reuse, st, n, k, st=st, n=n, runs=2)
    if "look" not in st:
        for src in (0, 1, n - 1, n, n + 1, 3 * n):
            R.case("short", short, st, n, src, k, st=st, n=n, src=src)
for name in LIB:
    for v in ("list", "gen", "listiter", "map", "tuple", "curry", "none", "int"):
        for s in (0, 1):
            R.case("lib", lib, name, v, s, name=name, v=v, ik=LIB[name][1], ok=LIB[name][2])
for u in MISSING:
    for d in DOWN:
        R.case("missing", missing, u, d, False, up=u, down=d)
for u in MISSLIST:
    for d in DOWNL:
        R.case("missing", missing, u, d, True, up=u, down=d)
R.close()
