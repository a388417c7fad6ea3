import matplotlib
matplotlib.use("agg")
import drv
import numpy as np
from matplotlib import pyplot as plt
from leap_ec.individual import Individual
from leap_ec.problem import ScalarProblem, FitnessOffsetProblem
from leap_ec.real_rep import problems as rp
R = drv.Rec()
U = 16


def units(x):
    f = np.asarray(x, dtype=float).ravel() * U
    return [int(round(t)) if abs(t - round(t)) < 1e-6 and abs(t) < 1e8 else drv.ODD for t in f]


class Base(ScalarProblem):
    bounds = (-9, 9)      # the instance has its own

    def __init__(self, maximize=False, bounds=(-4, 4)):
        super().__init__(maximize)
        self.bounds = bounds
        self.got = []

    def evaluate(self, phenome):
        self.got.append(units(phenome))
        return 100 + len(self.got)


def wrap(p, w, choice="inherit", k=0):
    kw = {} if choice == "inherit" else dict(maximize=choice == "max")
    if w[0] == "t":
        o = np.array(w[1]) / U
        p = rp.TranslatedProblem(p, o if k % 2 else o.tolist(), **kw)
        o += 3                  # the caller's array is the caller's to reuse
        return p
    if w[0] == "m":
        m = np.array(w[1])
        p = rp.MatrixTransformedProblem(p, m if k % 2 else m.tolist(), **kw)
        m *= 2
        return p
    b = (w[1] / U, w[2] / U)
    return rp.ScaledProblem(p, b if k % 2 else list(b), **kw)


def stack(g, j):
    base = Base()
    p = base
    for k, w in enumerate(g["stack"]):
        p = wrap(p, w, k=j + k)
    vals, same = [], True
    for k, x in enumerate(g["points"]):
        ph = np.array(x) / U
        keep = ph.copy()
        if (j + k) % 4 == 0:
            ind = Individual(ph, problem=p)
            vals.append(drv.num(ind.evaluate()))
        else:
            vals.append(drv.num(p.evaluate(ph)))
        same = same and np.array_equal(ph, keep)
    return dict(got=base.got, vals=vals, same=bool(same), bounds=units(p.bounds))


def wrong(kind, n, L):
    """A point of the wrong dimension is refused and never reaches the wrapped problem."""
    base = Base()
    w = dict(t=["t", [16] * n], m=["m", np.eye(n).tolist()])[kind]
    p = wrap(base, w)
    try:
        p.evaluate(np.ones(L))
        return dict(refused=False, reached=len(base.got))
    except Exception:
        return dict(refused=True, reached=len(base.got))


def listform(kind):
    """A plain list is either refused or evaluated like the array."""
    base = Base()
    p = wrap(base, dict(t=["t", [16, -32]], m=["m", [[0, -1], [1, 0]]], s=["s", 0, 128])[kind])
    try:
        p.evaluate([1.0, 2.0])
        got = base.got[0]
        base.got.clear()
        p.evaluate(np.array([1.0, 2.0]))
        return dict(ok=got == base.got[0])
    except (ValueError, TypeError, AssertionError):
        return dict(ok=base.got == [])


def dirs(g, j):
    base = Base(maximize=g["base"])
    p = base
    kinds = [["t", [16, 0]], ["m", [[1, 0], [0, 1]]], ["s", -32, 32]]
    for k, c in enumerate(g["choices"]):
        p = wrap(p, kinds[(j + k) % 3], c, k)
    return dict(mx=bool(p.maximize), up=bool(p.worse_than(1, 2)), down=bool(p.worse_than(2, 1)), eq=bool(p.equivalent(2, 2)))


def fam(g, j):
    bs = g["fam"]
    D = [np.diag(b["D"]) for b in bs]
    Rm = [np.array(b["R"]) for b in bs]
    o = [np.array(b["o"]) for b in bs]
    v = [b["v"] for b in bs]
    p = rp.QuadraticFamilyProblem(D, Rm, o, v)
    n = len(bs[0]["o"])
    pts = [[a, b] for a in (-2, -1, 0, 3) for b in (-1, 0, 2)] if n == 2 else [[R.rng.randint(-3, 3) for _ in range(n)] for _ in range(6)] + [b["o"] for b in bs[:4]]
    vals = [drv.num(p.evaluate(np.array(x, dtype=float))) for x in pts]
    para = rp.ParabaloidProblem(D[0], Rm[0])
    pv = [drv.num(para.evaluate(np.array(x, dtype=float))) for x in pts]
    return dict(pts=pts, vals=vals, pv=pv, basins=int(p.num_basins), dims=int(p.dimensions), mx=bool(p.maximize or para.maximize),
                bad=refuses(lambda: rp.ParabaloidProblem(np.array([[1, 1], [0, 1]]), np.eye(2))) and refuses(lambda: rp.QuadraticFamilyProblem(D, Rm, o, v + [0])))


def refuses(f):
    try:
        f()
        return False
    except Exception:
        return True


def gen(dims, basins, glob, wb, ob, fb):
    kw = {}
    if wb:
        kw["width_bounds"] = wb
    if ob:
        kw["offset_bounds"] = ob
    if fb:
        kw["fitness_offset_bounds"] = fb
    p = rp.QuadraticFamilyProblem.generate(dims, basins, num_global_optima=glob, **kw)
    m = lambda x: int(round(float(x) * 1000))
    at = [m(p.evaluate(o)) for o in p.offset_vectors]
    rnd = [m(p.evaluate(np.random.uniform(-10, 10, dims))) for _ in range(5)]
    return dict(n=p.num_basins, dims=len(p.offset_vectors[0]), at=at, offs=[[m(t) for t in o] for o in p.offset_vectors], v=[m(t) for t in p.fitness_offsets],
                diag=[[m(t) for t in np.diagonal(D)] for D in p.diagonal_matrices], rnd=rnd, opt=[m(t) for t in p.global_optimum] if glob else [], ropt=m(p.evaluate(p.global_optimum)) if glob else 0,
                distinct=len({tuple(o.tolist()) for o in p.offset_vectors}), mats=[[[int(round(t * 10000)) for t in r] for r in q] for q in p.rotation_matrices])


def ortho(n):
    Q = [rp.random_orthonormal_matrix(n), rp.MatrixTransformedProblem.random_orthonormal(Base(), n).matrix]
    return dict(Q=[[[int(round(t * 10000)) for t in r] for r in q] for q in Q])


def randoff(n, lo, hi):
    base = Base(maximize=True)
    seen, pos, flat, was = [], [], 0, set()
    for _ in range(60):
        p = rp.TranslatedProblem.random(base, (lo, hi), n)
        base.got.clear()
        p.evaluate(np.array(p.offset, dtype=float))
        seen += [int(np.floor(t * 1000)) for t in p.offset]
        pos.append(base.got[0])
        flat += n > 1 and len(set(p.offset.tolist())) == 1
        was.add(tuple(p.offset.tolist()))
    chosen = [bool(c.maximize) == w for w in (True, False) for b in (Base(maximize=True), Base(maximize=False))
              for c in (rp.TranslatedProblem.random(b, (lo, hi), n, maximize=w), rp.MatrixTransformedProblem.random_orthonormal(b, n, maximize=w))]
    chosen += [bool(rp.TranslatedProblem.random(Base(maximize=w), (lo, hi), n).maximize) == w and bool(rp.MatrixTransformedProblem.random_orthonormal(Base(maximize=w), n).maximize) == w for w in (True, False)]
    return dict(offs=seen, n30=60 * n, flat=int(flat), distinct=len(was), at0=pos, mx=bool(p.maximize) and all(chosen))


class Grid(ScalarProblem):
    def __init__(self, bounds=None):
        super().__init__(False)
        self.pts = []
        if bounds:
            self.bounds = bounds

    def evaluate(self, ph):
        self.pts.append(tuple(units(ph)))
        return float(ph[0] ** 2 + ph[1])


def grid(kind, bounds, xl, yl, gr, pad):
    p = Grid(bounds)
    kw = {}
    if xl:
        kw["xlim"] = (xl[0] / U, xl[1] / U)
    if yl:
        kw["ylim"] = (yl[0] / U, yl[1] / U)
    if gr:
        kw["granularity"] = gr / U
    if pad:
        kw["pad"] = np.array(pad) / U
    if kind:
        kw["kind"] = kind
    rp.plot_2d_problem(p, **kw)
    plt.close("all")
    return dict(seen=sorted(set(p.pts)))


for j, g in enumerate(R.gen()):
    if "stack" in g:
        R.case("stack", stack, g, j, stack=g["stack"], points=g["points"])
    elif "choices" in g:
        R.case("dirs", dirs, g, j, choices=g["choices"], base=g["base"])
    else:
        R.case("fam", fam, g, j, fam=g["fam"])
rr = R.rng


def signed(n, two):
    """a signed permutation matrix, possibly with one entry doubled or one more entry"""
    q = list(range(n))
    rr.shuffle(q)
    m = [[(rr.choice([1, -1]) if c == q[r] else 0) for c in range(n)] for r in range(n)]
    if two:
        m[rr.randrange(n)][rr.randrange(n)] = 2
    return m


for j in range(150 if R.thorough else 40):      # high stacks, many dimensions, many basins
    n = rr.choice([3, 5, 10, 20])
    st = []
    for _ in range(rr.randint(1, 7)):
        w = rr.choice("ttmms")
        st.append(["t", [8 * rr.randint(-9, 9) for _ in range(n)]] if w == "t" else ["m", signed(n, rr.random() < .3)] if w == "m" else ["s"] + rr.choice([[-32, 32], [-64, 64], [0, 128], [-128, 0]]))
    pts = [[16 * rr.randint(-8, 8) for _ in range(n)] for _ in range(4)]
    g = dict(stack=st, points=pts)
    R.case("stack", stack, g, j, stack=st, points=pts)
    ch = [rr.choice(["inherit", "inherit", "max", "min"]) for _ in range(rr.randint(3, 9))]
    g = dict(choices=ch, base=rr.random() < .5)
    R.case("dirs", dirs, g, j, choices=ch, base=g["base"])
    n = rr.choice([2, 3, 6])
    f = [dict(R=signed(n, rr.random() < .5), D=[rr.randint(1, 4) for _ in range(n)], o=[rr.randint(-3, 3) for _ in range(n)], v=rr.choice([0, 0, 3, 7])) for _ in range(rr.choice([1, 4, 12]))]
    R.case("fam", fam, dict(fam=f), j, fam=f)
for n in (1, 2, 3, 9):
    for L in range(1, 6):
        if L != n:
            for k in "tm":
                R.case("wrong", wrong, k, n, L)
for k in "tms":
    R.case("list", listform, k)
for j in range(60 if R.thorough else 20):
    R.seed("gen", j)
    dims, basins = 1 + j % 4, 1 + j % 5
    glob = R.rng.randint(0, basins)
    wb, ob, fb = [(None, None, None), ((2, 3), (-3, 5), (1, 2)), ((1, 1), (0, 4), (50, 60))][j % 3]
    W, O, F = wb or (1, 5), ob or (-10, 10), fb or (10, 100)
    R.case("gen", gen, dims, basins, glob, wb, ob, fb, wantdims=dims, basins=basins, glob=glob, W=[1000 * t for t in W], O=[1000 * t for t in O], F=[1000 * t for t in F])
    R.case("ortho", ortho, 1 + j % 5)
    if j < 3:
        R.case("ortho", ortho, [26, 33, 41][j])
    if j % 4 == 0:
        R.case("gen", gen, 8, 14, j // 4, wb, ob, fb, wantdims=8, basins=14, glob=j // 4 % 15, W=[1000 * t for t in W], O=[1000 * t for t in O], F=[1000 * t for t in F]) if j // 4 < 15 else 0
        R.case("ortho", ortho, 9 + j % 7)
        R.case("randoff", randoff, 10, -3, 4, lo=-3000, hi=4000)
    lo = R.rng.randint(-9, 3)
    hi = lo + R.rng.randint(1, 9)
    R.case("randoff", randoff, 1 + j % 4, lo, hi, lo=1000 * lo, hi=1000 * hi)
for kind in (None, "surface", "contour"):
    for bounds, xl, yl, gr in (((0, 2), None, None, 8), (None, (-16, 16), (0, 32), 8), ((-1, 1), (0, 16), None, 4), ((-1, 1), None, (32, 48), 8), ((0, 25), None, None, None)):
        for pad in (None, [], [16], [32, -8]):
            b = [t * U for t in bounds] if bounds else [0, 0]
            R.case("grid", grid, kind, bounds, xl, yl, gr, pad, xl=list(xl) if xl else b, yl=list(yl) if yl else b, gr=gr or (b[1] - b[0]) // 50, pad=pad or [])
R.close()
