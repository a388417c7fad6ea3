import time
time.sleep = lambda s: None
import copy, pickle, warnings
import matplotlib
matplotlib.use("agg")
import drv
import networkx as nx
import numpy as np
from matplotlib import pyplot as plt
from leap_ec.decoder import IdentityDecoder
from leap_ec.individual import Individual
from leap_ec.problem import FunctionProblem
from leap_ec.executable_rep import executable, neural_network as nn
warnings.simplefilter("ignore")
R = drv.Rec()
rr = R.rng
ACT = dict(id=lambda x: x, relu=nn.relu)


def node(n):
    n = str(n)
    if n == "bias":
        return [-1, 0]
    if n[0] == "i":
        return [0, int(n[1:])]
    if n[0] == "o":
        return ["o", int(n[1:])]
    a, b = n[1:].split("_")
    return [int(a) + 1, int(b)]


def size(shape):
    s = [x for x in shape if x]
    return sum((a + 1) * b for a, b in zip(s, s[1:]))


def net(shape, act, genome, inputs, j):
    shp = [shape, tuple(shape)][j % 2]
    dec = nn.SimpleNeuralNetworkDecoder(shp, activation=ACT[act])
    g = [list(genome), np.array(genome), np.array(genome, dtype=float)][j % 3]
    keep = copy.deepcopy(g)
    if j % 4 == 1:
        f = Individual(g, decoder=dec).decode()
    else:
        f = dec.decode(g)
    out = [drv.nums(f([x, np.array(x), np.array(x, dtype=float)][(j + k) % 3])) for k, x in enumerate(inputs)]
    again = drv.nums(f(np.array(inputs[0])))
    same = type(g) is type(keep) and bool(np.array_equal(g, keep))
    gr = f.graph
    L = f.num_hidden_layers + 1
    fix = lambda n: [L, n[1]] if n[0] == "o" else n
    edges = [{"from": fix(node(a)), "to": fix(node(b)), "w": drv.num(w)} for a, b, w in gr.edges(data="weight")]
    ref = all(drv.raises(dec.decode, b) != "" for b in (list(genome) + [1], list(genome)[:-1], []))
    return dict(out=out, again=again, len=int(dec.length), refused=ref, nin=int(f.num_inputs), nout=int(f.num_outputs), nhid=int(f.num_hidden_layers), same=same,
                edges=edges, nodes=[fix(node(n)) for n in gr.nodes])


def dflt(shape, genome, x):
    f = nn.SimpleNeuralNetworkDecoder(shape).decode(np.array(genome))
    return dict(vals=[int(round(t * 10000)) for t in f(np.array(x))])


def exact(ms, x, j):
    """weights count to the last digit: weight 3 + m/2^45 on the bias, inputs and inputs' weights whole numbers"""
    n = len(ms)
    f = nn.SimpleNeuralNetworkDecoder([2, n], activation=ACT["id"]).decode([np.array, list][j % 2]([1.0] * (2 * n) + [3 + m / 2 ** 45 for m in ms]))
    return dict(vals=[drv.num((v - 3 - sum(x)) * 2 ** 45) for v in f(np.array(x, dtype=float))])


def quiet(fn, x):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with np.errstate(all="warn"):
            v = fn(x)
    return np.asarray(v, dtype=float), any("overflow" in str(t.message) or "invalid" in str(t.message) for t in w)


def act(fn, xs, j):
    v, w = quiet(fn, [np.array(xs), np.array(xs, dtype=float), list(xs)][j % 3])
    return dict(vals=[int(round(t * 10000)) if np.isfinite(t) else drv.ODD for t in np.ravel(v)], warned=w)


def reluc(xs, j):
    return dict(vals=drv.nums(nn.relu([np.array(xs), list(xs)][j % 2])))


def argmax(vals, j):
    seen = []

    class Inner(executable.Executable):
        tag = 17

        def __call__(self, x):
            seen.append(x)
            return [list, np.array, tuple][j % 3](vals[x])
    e = executable.ArgmaxExecutable(Inner())
    if j % 4 == 1:
        e = copy.deepcopy(e)
    got = [drv.num(e(k)) for k in range(len(vals))]
    return dict(got=got, passed=seen == list(range(len(vals))), attr=e.tag == 17 and drv.raises(lambda: e.nothing) == "AttributeError")


def wrapped(shape, g, x, j):
    calls = []
    inner = nn.SimpleNeuralNetworkDecoder(shape, activation=ACT["id"])

    class Dec:
        def decode(self, genome, *a, **k):
            calls.append(drv.nums(genome))
            return inner.decode(genome)
    d = executable.WrapperDecoder(Dec(), executable.ArgmaxExecutable)
    f = Individual(np.array(g), decoder=d).decode() if j % 2 else d.decode(np.array(g))
    return dict(out=drv.num(f(np.array(x))), calls=calls)


class Space:
    def __init__(self, shape):
        self.shape = shape


def keys(events, kmap, j):
    m = {100 + k + 1: v for k, v in enumerate(kmap)}
    e = executable.KeyboardExecutable(None, Space(()), keymap=m.get if j % 2 else (lambda k: m[k]))
    first = drv.num(e("x"))
    got = []
    for ev in events:
        (e.key_press if ev["do"] == "press" else e.key_release)(100 + ev["key"], None)
        got.append(drv.num(e(None)))
    return dict(got=got, first=first)


def keyspace(shape):
    return dict(refused=drv.raises(executable.KeyboardExecutable, None, Space(shape)) == "ValueError")


def rnd(samples):
    it = iter(samples)

    class Sp:
        def sample(self):
            return next(it)
    e = executable.RandomExecutable(None, Sp())
    return dict(got=[drv.num(e(k)) for k in range(len(samples))])


class Ph:
    def __init__(self, name):
        self.name = name

    @property
    def graph(self):
        g = nx.MultiDiGraph()
        g.add_weighted_edges_from([(f"{self.name}a", f"{self.name}b", 2), (f"{self.name}a", f"{self.name}c", 3)])
        return g


class PhDec(IdentityDecoder):
    def decode(self, genome, *a, **k):
        return Ph(f"n{int(genome[0])}")


def graphprobe(pops, gens, modulo, mx, weights, mult, j):
    ctx = {"leap": {"generation": 0}}
    prob = FunctionProblem(lambda x: 0, mx)
    fig, ax = plt.subplots()
    kw = {} if not weights else dict(weights=True)
    if mult != 1:
        kw["weight_multiplier"] = mult
    if modulo > 1 or j % 2:
        kw["modulo"] = modulo
    p = nn.GraphPhenotypeProbe(ax=ax, context=ctx, **kw)
    labels, graphs, same = [], [], True
    for n, (pop, gen) in enumerate(zip(pops, gens)):
        ctx["leap"]["generation"] = gen
        inds = []
        for k, f in enumerate(pop):
            ind = Individual(np.array([100 * n + k]), decoder=PhDec(), problem=prob)
            ind.fitness = f
            inds.append(ind)
        keep = list(inds)
        out = p(inds)
        same = same and out is inds and len(out) == len(keep) and all(a is b for a, b in zip(out, keep))
        labels.append(sorted(t.get_text() for t in ax.texts))
        graphs.append([[f"n{100 * n + k}{c}" for c in "abc"] for k in range(len(pop))])
    from matplotlib.patches import FancyArrowPatch
    w = sorted(int(round(q.get_linewidth() * 4)) for q in ax.patches if isinstance(q, FancyArrowPatch))
    plt.close(fig)
    drawn = any(g % modulo == 0 for g in gens)
    return dict(labels=labels, graphs=graphs, same=same, widths=w if weights else [], wantw=[int(8 * mult), int(12 * mult)] if weights and drawn else [])


for j, g in enumerate(R.gen()):
    if "shape" in g:
        n = size(g["shape"])
        w = 1 if n > 40 else 2 if n > 25 else 3
        gen = [rr.randint(-w, w) for _ in range(n)]
        if j % 5 == 0:
            gen = [0] * n
            for k in rr.sample(range(n), min(n, 3)):
                gen[k] = rr.choice([1, -1])
        nin = [x for x in g["shape"] if x][0]
        ins = [[rr.randint(-3, 3) for _ in range(nin)] for _ in range(3)]
        R.case("net", net, g["shape"], g["act"], gen, ins, j, shape=g["shape"], act=g["act"], genome=gen, inputs=ins)
        if len([x for x in g["shape"] if x]) == 2:
            R.case("dflt", dflt, g["shape"], gen, ins[0], shape=g["shape"], g=gen, x=ins[0])
        if j % 3 == 0:
            R.case("wrapped", wrapped, g["shape"], gen, ins[0], j, shape=g["shape"], g=gen, x=ins[0])
    else:
        R.case("keys", keys, g["events"], g["map"], j, events=g["events"], map=g["map"])
for j in range(300 if R.thorough else 80):
    shape = [rr.randint(1, 4 if j % 2 else 2) for _ in range(rr.randint(2, 4 if j % 2 else 8))]
    if j % 3 == 0:
        shape.insert(rr.randint(0, len(shape)), 0)
    if j % 10 == 0:
        shape = [rr.randint(5, 12), rr.randint(5, 12), rr.randint(1, 6)]
    gen = [rr.randint(-1, 1) for _ in range(size(shape))]
    nin = [x for x in shape if x][0]
    ins = [[rr.randint(-2, 2) for _ in range(nin)] for _ in range(3)]
    a = rr.choice(list(ACT))
    R.case("net", net, shape, a, gen, ins, j, shape=shape, act=a, genome=gen, inputs=ins)
for j in range(60 if R.thorough else 16):       # wide layers, long key histories, long runs of the probe
    shape = [rr.randint(1, 20) for _ in range(rr.randint(2, 4))]
    gen = [rr.randint(-1, 1) for _ in range(size(shape))]
    ins = [[rr.randint(-1, 1) for _ in range(shape[0])] for _ in range(3)]
    a = rr.choice(list(ACT))
    R.case("net", net, shape, a, gen, ins, j, shape=shape, act=a, genome=gen, inputs=ins)
    R.case("wrapped", wrapped, shape, gen, ins[0], j, shape=shape, g=gen, x=ins[0])
    nk = rr.randint(3, 9)
    evs, kmap = [dict(do=rr.choice(["press", "press", "release"]), key=rr.randint(1, nk)) for _ in range(rr.choice([12, 40, 90]))], [rr.randint(1, 6) for _ in range(nk)]
    R.case("keys", keys, evs, kmap, j, events=evs, map=kmap)
    T = rr.choice([8, 15])
    gens = list(range(7, 7 + T))
    pops = [[rr.randint(0, 40) for _ in range(rr.randint(5, 15))] for _ in gens]
    modulo, mx = rr.choice([1, 4, 7]), rr.random() < .5
    R.case("graphprobe", graphprobe, pops, gens, modulo, mx, False, 1, j, pops=pops, gens=gens, modulo=modulo, mx=mx)
    vals = [[rr.randint(-9, 9) for _ in range(rr.randint(9, 30))] for _ in range(4)]
    R.case("argmax", argmax, vals, j, vals=vals)
    xs = [rr.randint(-12, 12) for _ in range(rr.randint(9, 30))]
    R.case("sigmoid", act, nn.sigmoid, xs, j, xs=xs)
    R.case("relu", reluc, xs, j, xs=xs)
    R.case("softmax", act, nn.softmax, xs, j, xs=xs)
for j in range(120):
    xs = [rr.randint(-12, 12) for _ in range(rr.randint(1, 6))]
    if j % 5 == 0:
        xs = [rr.choice([-1000, -800, -40, 0, 40, 800, 1000]) for _ in xs]
    R.case("sigmoid", act, nn.sigmoid, xs, j, xs=xs)
    R.case("relu", reluc, xs, j, xs=xs)
    R.case("softmax", act, nn.softmax, xs, j, xs=xs)
    vals = [[rr.randint(-3, 3) for _ in range(rr.randint(1, 5))] for _ in range(4)]
    R.case("argmax", argmax, vals, j, vals=vals)
for j in range(12):
    ms, x = [rr.randint(-9999, 9999) for _ in range(1 + j % 4)], rr.choice([[0, 0], [1, -1], [2, -1]])
    R.case("exact", exact, ms, x, j, ms=ms)
for shp in ((), (1,), (2,), (2, 2), (1, 1), (1, 3)):
    R.case("keyspace", keyspace, shp, size=int(np.prod(shp)))
s = [rr.randint(-9, 9) for _ in range(8)]
R.case("random", rnd, s, samples=s)
for j in range(120 if R.thorough else 30):
    T = rr.randint(1, 5)
    start = rr.randint(0, 3)
    gens = list(range(start, start + T))
    pops = [[rr.randint(0, 4) for _ in range(rr.randint(1, 4))] for _ in gens]
    modulo, mx, wts, mult = rr.randint(1, 3), rr.random() < .5, rr.random() < .5, rr.choice([1, .5, 2])
    R.case("graphprobe", graphprobe, pops, gens, modulo, mx, wts, mult, j, pops=pops, gens=gens, modulo=modulo, mx=mx)
R.close()
