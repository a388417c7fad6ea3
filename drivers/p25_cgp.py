import itertools
import drv
import numpy as np
from leap_ec.individual import Individual
from leap_ec.executable_rep import cgp
R = drv.Rec()
rr = R.rng


def prim(p, style):
    if p["nand"]:
        return cgp.NAND()
    f = lambda *a, p=p: (p["c"] + sum(w * int(x) for w, x in zip(p["w"], a))) % 7
    return f if p["ar"] < 0 else cgp.FunctionPrimitive(f, p["ar"])


def decoder(s, prune=True, prims=None, **kw):
    a = dict(primitives=prims or [prim(p, 0) for p in s["prims"]], num_inputs=s["nin"], num_outputs=s["nout"], num_layers=s["layers"], nodes_per_layer=s["npl"], max_arity=s["arity"], prune=prune)
    if s["lb"] != s["layers"] or s["npl"] % 2:
        a["levels_back"] = s["lb"]
    if s["npar"] or kw.get("withpar"):
        return cgp.CGPWithParametersDecoder(num_parameters_per_node=s["npar"], **a)
    return cgp.CGPDecoder(**a)


def bounds(s):
    d = decoder(s)
    b = d.bounds()
    return dict(ngenes=d.num_genes(), nnodes=d.num_cgp_nodes(), lo=[int(x[0]) for x in b], hi=[int(x[1]) for x in b])


def check(s, n):
    d = decoder(s)
    B = [(int(a), int(b)) for a, b in d.bounds()]
    gs, raw, ints = [], [], []
    for k in range(n):
        g = [rr.randint(a, b) for a, b in B]
        r, isint = list(g), True
        m = k % 6
        if m == 1:
            j = rr.randrange(len(g)); g[j] = r[j] = B[j][0] - rr.choice([1, 1, 3])
        elif m == 2:
            j = rr.randrange(len(g)); g[j] = r[j] = B[j][1] + rr.choice([1, 1, 3])
        elif m == 3 and rr.random() < .5:
            g = r = g[:-1]
        elif m == 3:
            g = r = g + [0]
        elif m == 4 and rr.random() < .5:
            j = rr.randrange(len(g)); r[j] = float(g[j]); isint = False
        elif m == 5:
            for j in range(len(g)):
                if rr.random() < .5:
                    g[j] = r[j] = rr.choice(B[j])
        gs.append(g), raw.append(r), ints.append(isint)
    acc, same = [], True
    for k, r in enumerate(raw):
        x = Individual([np.array(r), np.array(r, dtype=np.int32), r][k % 3] if ints[k] else [r, np.array(r, dtype=float), np.array(r, dtype=np.float32)][k % 3], d)
        try:
            y = next(d.check_constraints(iter([x])))
            acc.append(True)
            same &= y is x and list(y.genome) == list(r)
        except ValueError:
            acc.append(False)
    return dict(genomes=gs, ints=ints, accepted=acc, same=same)


def run(s, genome, par, ins, style):
    prims = [prim(p, 0) for p in s["prims"]]
    g = [np.array(genome), list(genome)][style % 2]
    outs = []
    D = {pr: decoder(s, pr, prims) for pr in (True, False)}
    wrap = (lambda h: [h, list(par) if style % 3 else np.array(par)]) if s["npar"] else (lambda h: h)
    if style % 4 == 3:
        E = {pr: Individual(wrap(g), D[pr]).decode() for pr in D}
    else:
        E = {pr: D[pr].decode(wrap(g)) for pr in D}
    for pr in D:
        outs.append([drv.nums(E[pr](v)) for v in ins])
    # repeated, in another order, interleaved between two executables
    other = {pr: [None] * len(ins) for pr in D}
    idx = list(range(len(ins)))
    rr.shuffle(idx)
    for k in idx:
        for pr in D:
            other[pr][k] = drv.nums(E[pr](np.array(ins[k]) if k % 2 else tuple(ins[k])))
    outs += list(other.values())
    return dict(outs=outs, same=[int(x) for x in g] == list(genome))


def origin(s, how, n, style):
    d = decoder(s)
    parok, first, seen = True, None, [set() for _ in range(d.num_genes())]
    gs = []
    if how == "init":
        mk = d.initializer() if not s["npar"] else None
        if mk is None:
            pi = itertools.count(1)
            mk2 = d.initialize(lambda: [next(pi)] * (s["npar"] * s["layers"] * s["npl"]))
            got = [mk2() for _ in range(n)]
            parok = [list(g[1]) for g in got] == [[k + 1] * (s["npar"] * s["layers"] * s["npl"]) for k in range(n)]
            gs = [g[0] for g in got]
        elif style % 2:
            c = cgp.create_cgp_vector(d)
            gs = [c() for _ in range(n)]
        else:
            gs = [mk() for _ in range(n)]
    elif how == "mutate":
        m = cgp.cgp_mutate(d, probability=1.0) if style % 2 else cgp.cgp_mutate(d, expected_num_mutations=d.num_genes())
        inds = [Individual(cgp.create_cgp_vector(d)(), d) for _ in range(n)]
        it = m(iter(inds))
        gs = [next(it).genome for _ in range(n)]
    else:
        m = cgp.cgp_genome_mutate(d, probability=.7) if style % 2 else cgp.cgp_genome_mutate(d, expected_num_mutations=max(1, d.num_genes() * .7))
        g = cgp.create_cgp_vector(d)()
        for _ in range(n):
            g = m(g)
            g = g.copy()
            gs.append(g)
    valid = True
    L = []
    for g in gs:
        if any(not isinstance(v, (int, np.integer)) for v in g) or len(g) != d.num_genes():
            valid = False
            continue
        v = [int(x) for x in g]
        L.append(v)
        for k, x in enumerate(v):
            seen[k].add(x)
    indep = len({id(g) for g in gs}) == len(gs) and not any(np.shares_memory(a, b) for a, b in zip(gs, gs[1:]) if isinstance(a, np.ndarray))
    return dict(genomes=L[:60], seen=[sorted(v) for v in seen], valid=valid, parok=parok, indep=indep)


def access(s, g):
    prims = [prim(p, 0) for p in s["prims"]]
    d = decoder(s, prims=prims)
    G = np.array(g)
    fn = [next((k for k, p in enumerate(prims) if p is d.get_primitive(G, l, n)), -1) for l in range(s["layers"]) for n in range(s["npl"])]
    src = [[int(x) for x in d.get_input_sources(G, l, n)] for l in range(s["layers"]) for n in range(s["npl"])]
    return dict(fn=fn, src=src, out=[int(x) for x in d.get_output_sources(G)])


def inputs(s, k):
    dom = [0, 1] if any(p["nand"] for p in s["prims"]) else [0, 1, 3, 6]
    al = list(itertools.product(dom, repeat=s["nin"]))
    return [list(v) for v in rr.sample(al, min(len(al), k))]


cases = R.gen()
PR = next(c for c in cases if c["what"] == "prims")["prims"]
k = 0
for c in cases:
    s = c.get("shape")
    if c["what"] == "circuits":
        gs = c["genomes"]
        lim = 3000 if R.thorough else 90
        for g in (gs if len(gs) <= lim else rr.sample(gs, lim)):
            k += 1
            ins = inputs(s, 4)
            R.case("run", run, s, g, [], ins, k, shape=s, genome=g, par=[], ins=ins)
            if k % 5 == 0:
                R.case("access", access, s, g, shape=s, genome=g)
                sp = dict(s, npar=1 + k % 2)
                par = [rr.randint(0, 6) for _ in range(sp["npar"] * s["layers"] * s["npl"])]
                if not any(p["nand"] for p in s["prims"]):
                    R.case("run", run, sp, g, par, ins, k, shape=sp, genome=g, par=par, ins=ins)
    elif c["what"] == "shape":
        R.case("bounds", bounds, s, shape=s)
        if rr.random() < (.5 if R.thorough else .12):
            R.case("check", check, s, 24, shape=s)


def lo_hi(s):
    return [(int(a), int(b)) for a, b in decoder(s).bounds()]


for j in range(900 if R.thorough else 110):      # bigger random shapes and circuits
    pr = [dict(p) for p in rr.sample(PR[:4], rr.randint(1, 4))]
    s = dict(nin=rr.randint(1, 3), nout=rr.randint(1, 3), layers=rr.randint(1, 4), npl=rr.randint(1, 3), arity=rr.randint(2, 3), npar=rr.choice([0, 0, 1, 2]), prims=pr)
    s["lb"] = rr.randint(1, s["layers"])
    g = [rr.randint(a, b) for a, b in lo_hi(s)]
    par = [rr.randint(0, 6) for _ in range(s["npar"] * s["layers"] * s["npl"])]
    ins = inputs(s, 3)
    R.case("run", run, s, g, par, ins, j, shape=s, genome=g, par=par, ins=ins)
for j in range(150 if R.thorough else 25):      # large grids: shared sub-circuits, many inputs and outputs
    pr = [dict(p) for p in rr.sample(PR[:4], rr.randint(1, 4))]
    s = dict(nin=rr.choice([1, 4, 7]), nout=rr.choice([1, 4, 8]), layers=rr.choice([5, 9, 12, 30]), npl=rr.choice([1, 2, 4]), arity=rr.randint(2, 3), npar=rr.choice([0, 0, 1, 2]), prims=pr)
    s["lb"] = rr.choice([1, 2, s["layers"] - 1, s["layers"]])
    g = [rr.randint(a, b) for a, b in lo_hi(s)]
    par = [rr.randint(0, 6) for _ in range(s["npar"] * s["layers"] * s["npl"])]
    ins = [[rr.choice([0, 1] if any(p["nand"] for p in pr) else [0, 1, 3, 6]) for _ in range(s["nin"])] for _ in range(3)]
    R.case("run", run, s, g, par, ins, j, shape=s, genome=g, par=par, ins=ins)
    R.case("bounds", bounds, s, shape=s)
    if not s["npar"]:
        R.case("access", access, s, g, shape=s, genome=g)
for j in range(20 if R.thorough else 5):          # nodes of many inputs
    s = dict(nin=rr.choice([2, 5]), nout=2, layers=2, npl=2, arity=13, npar=0, prims=[dict(nand=False, c=1, w=[1, 2, 3, 4, 5, 6, 1, 3, 5, 2, 4, 6, 2], ar=[13, 11, -1][(j + t) % 3]) for t in range(2)], lb=2)
    g = [rr.randint(a, b) for a, b in lo_hi(s)]
    ins = inputs(s, 3) if s["nin"] < 4 else [[rr.choice([0, 1]) for _ in range(s["nin"])] for _ in range(3)]
    R.case("run", run, s, g, [], ins, j, shape=s, genome=g, par=[], ins=ins)
    R.case("bounds", bounds, s, shape=s)
for j in range(60 if R.thorough else 15):
    s = dict(nin=rr.randint(1, 2), nout=rr.randint(1, 2), layers=rr.randint(1, 3), npl=rr.randint(1, 2), arity=rr.randint(1, 2), npar=0, prims=PR[:rr.randint(1, 3)])
    s["lb"] = rr.randint(1, s["layers"])
    how = ["init", "mutate", "genome"][j % 3]
    if how == "init" and j % 2:
        s["npar"] = 1
    R.case("origin", origin, s, how, 500, j // 3, shape=s)
R.close()
