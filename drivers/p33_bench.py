import warnings
import drv
import numpy as np
from leap_ec.real_rep import problems as rp
from leap_ec.multiobjective import problems as mp
warnings.simplefilter("ignore")
R = drv.Rec()
PI = np.pi


def scaled(v, sc):
    try:
        f = float(v) * sc
    except Exception:
        return drv.BADT
    if not np.isfinite(f) or abs(f) > 2e9:
        return drv.ODD
    return int(round(f))


def cls_args(f, par):
    """Constructor and arguments (defaults are left out where the parameters are the documented defaults)."""
    d = dict(sphere=rp.SpheroidProblem, rastrigin=rp.RastriginProblem, rosenbrock=rp.RosenbrockProblem, step=rp.StepProblem, lunacek=rp.LunacekProblem,
             ackley=rp.AckleyProblem, weierstrass=rp.WeierstrassProblem, langermann=rp.LangermannProblem, langermann2=rp.LangermannProblem, langermann3=rp.LangermannProblem, gaussian=rp.GaussianProblem,
             griewank=rp.GriewankProblem, schwefel=rp.SchwefelProblem, cosine=rp.CosineFamilyProblem, quartic=rp.NoisyQuarticProblem, shekel=rp.ShekelProblem)
    c = d[f]
    if f == "rastrigin":
        return c, {} if par == [1] else dict(a=par[0])
    if f == "ackley":
        return c, {} if par == [20, 1] else dict(a=par[0], b=par[1] / 5)
    if f == "weierstrass":
        return c, {} if par == [20, 3] else dict(kmax=par[0], b=par[1])
    if f in ("langermann", "langermann2"):
        return c, {} if par[0] == [1, 2, 5, 2, 3] else dict(m=len(par[0]), c=par[0], a=par[1])
    if f == "langermann3":
        return c, dict(m=len(par[0]), c=par[0], a=[[t / 2 for t in r] for r in par[1]])
    if f == "gaussian":
        return c, {} if par == [1, 1] else dict(width=par[0], height=par[1])
    if f == "schwefel":
        return c, {} if par == [418983] else dict(alpha=par[0] / 1000)
    if f == "cosine":
        return c, dict(alpha=par[0], global_optima_counts=par[1], local_optima_counts=par[2])
    return c, {}


def point(f, par, X):
    X = np.array(X, dtype=float)
    if f in ("sphere", "rastrigin", "rosenbrock", "step", "lunacek", "ackley", "weierstrass"):
        return X / 4
    if f in ("langermann2", "langermann3"):
        return X / 2
    if f == "cosine":
        return np.array([m / (4 * (g - 1)) if g > 1 else m / 4 for m, g in zip(X, par[1])])
    if f == "griewank":
        return np.sqrt(np.arange(1, len(X) + 1)) * X * PI / 2
    if f == "schwefel":
        return np.sign(X) * (X * PI / 2) ** 2
    return X


def direction(p, mx):
    return bool(p.worse_than(1.0, 2.0)) == mx and bool(p.worse_than(2.0, 1.0)) == (not mx) and bool(p.maximize) == mx and not p.worse_than(1.0, 1.0) and bool(p.equivalent(3.0, 3.0))


def scalar(f, par, X, sc, j):
    c, kw = cls_args(f, par)
    if f == "lunacek":
        kw = dict(N=len(X), mu_1=par[0] / 4, mu_2=par[1] / 4, s=par[2], d=par[3])
    want = [None, True, False][j % 3]
    p = c(**kw, **({} if want is None else dict(maximize=want)))
    ph = point(f, par, X)
    keep = ph.copy()
    vals = [scaled(p.evaluate(ph), sc)]
    p.evaluate(point(f, par, [0] * len(X)))
    vals.append(scaled(p.evaluate(ph), sc))
    if f in ("sphere", "rastrigin", "rosenbrock", "step"):
        vals.append(scaled(p.evaluate([float(t) for t in ph]), sc))
    mx = direction(p, True) if want is None and not direction(p, False) else direction(p, bool(want))
    isdir = True if want is None and direction(p, True) else False if want is None else want
    return dict(vals=vals, same=bool(np.array_equal(ph, keep)), dirok=bool(mx), isdir=bool(isdir), given=want is not None, bounds=[int(round(1000 * b)) for b in c.bounds])


def shekel(g, j):
    c = np.arange(1, 26)[::-1] if g["c"] else np.arange(1, 26)
    kw = {}
    if g["k"] != 500:
        kw["k"] = g["k"]
    if g["c"]:
        kw["c"] = c
    p = rp.ShekelProblem(**kw)
    ph = np.array([16 * (g["j"] % 5) - 32 + g["dx"], 16 * (g["j"] // 5) - 32 + g["dy"]], dtype=float)
    a = p.evaluate(ph)
    b = p.evaluate(ph.tolist())
    return dict(vals=[scaled(a, 1000), scaled(b, 1000)], own=int(c[g["j"]]), isdir=bool(p.maximize), bounds=[int(round(1000 * b)) for b in rp.ShekelProblem.bounds])


def noisy(X, n, j):
    p = rp.NoisyQuarticProblem()
    ph = np.array(X, dtype=float)
    v = np.array([p.evaluate(ph) for _ in range(n)])
    return dict(mean=scaled(v.mean(), 1000), var=scaled(v.var(), 1000), distinct=len(set(v.tolist())), isdir=bool(p.maximize), bounds=[int(round(1000 * b)) for b in rp.NoisyQuarticProblem.bounds])


def lundef(N, r):
    p = rp.LunacekProblem(N)
    x = np.full(N, 2.5)
    return dict(s=scaled(p.s, 1000000), smu=scaled(p.s * p.mu_2 ** 2, 1000), neg=bool(p.mu_2 < 0), mu1=scaled(p.mu_1, 4), d=scaled(p.d, 1), opt=scaled(p.evaluate(x), 1000), second=scaled(p.evaluate(np.full(N, p.mu_2)), 1000),
                sin=scaled(10 * N * (1 - np.cos(2 * PI * (p.mu_2 - 2.5))), 1000))


ZC = dict(sch=mp.SCHProblem, zdt1=mp.ZDT1Problem, zdt2=mp.ZDT2Problem, zdt3=mp.ZDT3Problem, zdt4=mp.ZDT4Problem, zdt5=mp.ZDT5Problem, zdt6=mp.ZDT6Problem)
DEF = dict(zdt1=30, zdt2=30, zdt3=10, zdt4=30, zdt5=11, zdt6=10)


def two(g, j):
    f, n, k = g["f"], g["n"], g["k"]
    rr = np.random.RandomState(j)
    if f == "sch":
        p = mp.SCHProblem()
        x = g["X"][0] / 4
        ph = x if j % 2 else np.array([x])
    else:
        p = ZC[f](**({} if n == DEF[f] and j % 2 else dict(n=n)), **({} if j % 3 else dict(check_phenome=bool(j % 2))))
        if f in ("zdt1", "zdt2", "zdt3"):
            x0 = k * k / (4 * g["g"]) if f != "zdt2" else k / 4
            tail = np.zeros(n - 1)
            tail[rr.permutation(n - 1)[:g["ones"]]] = 1
        elif f == "zdt4":
            x0, tail = 16 * k * k / g["g"], np.array(g["X"]) / 8
        elif f == "zdt6":
            x0, tail = k / 12, np.full(n - 1, (g["g"] / 4) ** 4)
        if f == "zdt5":
            bits = []
            for ones, L in [(k, 30)] + [(u, 5) for u in g["X"]]:
                b = np.zeros(L, dtype=int)
                b[rr.permutation(L)[:ones]] = 1
                bits.append(b)
            ph = np.concatenate(bits)
            if j % 4 == 1:
                ph = ph.tolist()
        else:
            ph = np.concatenate([[x0], tail])
    keep = np.array(ph, copy=True)
    v = p.evaluate(ph)
    w = p.evaluate(ph)
    bnd = [] if f == "sch" else [[int(a), int(b)] for a, b in p.bounds]
    return dict(v=[scaled(t, s) for t, s in zip(v, g["sc"])], again=[scaled(t, s) for t, s in zip(w, g["sc"])], nv=len(v), same=bool(np.array_equal(np.array(ph), keep)), bounds=bnd,
                mins=bool(p.worse_than(np.array([2., 2.]), np.array([1., 1.])) and not p.worse_than(np.array([1., 1.]), np.array([2., 2.])) and not p.worse_than(np.array([1., 2.]), np.array([2., 1.]))),
                plen=p.phenome_length if f == "zdt5" else 0)


def outside(f, n, ph, check):
    p = ZC[f](n=n) if check == 2 else ZC[f](n=n, check_phenome=check)     # checked unless told otherwise
    try:
        v = p.evaluate(np.array(ph))
        return dict(refused=False, nv=len(v))
    except Exception:
        return dict(refused=True, nv=0)


def sizes(f):
    p = ZC[f]()
    return dict(n=len(p.bounds), bits=p.phenome_length if f == "zdt5" else 0)


for f in sorted(DEF):
    R.case("sizes", sizes, f, f=f)
for j, g in enumerate(R.gen()):
    f = g["f"]
    if f == "shekel":
        R.case("shekel", shekel, g, j, f=f, k=g["k"], dx=g["dx"], dy=g["dy"])
    elif f == "quartic":
        R.seed("quartic", j)
        n = 1500
        R.case("noisy", noisy, g["X"], n, j, f=f, X=g["X"], n=n)
    elif f == "sch" or f.startswith("zdt"):
        R.case("two", two, g, j, f=f, a=dict(X=g["X"], k=g["k"], g=g["g"]), n=g["n"])
    else:
        R.case("scalar", scalar, f, g["par"], g["X"], g["sc"], j, f=f, par=g["par"], X=g["X"])
rr = R.rng
for j in range(600 if R.thorough else 180):      # many dimensions
    f = ["sphere", "rastrigin", "rosenbrock", "step", "lunacek", "weierstrass", "griewank", "cosine", "gaussian", "schwefel", "ackley", "langermann"][j % 12]
    n = rr.choice([5, 10, 17, 30, 50]) if f not in ("schwefel", "griewank", "gaussian") else rr.randint(3, 5) if f == "schwefel" else rr.randint(4, 14)
    X = [rr.randint(-20, 20) for _ in range(n)]
    par, sc = [], dict(sphere=16, rastrigin=16, lunacek=16, rosenbrock=256, step=1, weierstrass=524288, griewank=1000000, gaussian=1000000, cosine=2 * n, schwefel=1000, ackley=100000, langermann=1000)[f]
    if f == "rastrigin":
        par = [rr.choice([1, 10])]
    elif f == "rosenbrock":
        X = [rr.randint(-8, 8) for _ in range(n)] if j % 2 else [4 + (rr.random() < .1) for _ in range(n)]
    elif f == "lunacek":
        par = rr.choice([[10, -10, 1, 1], [4, -6, 2, 3], [-2, 6, 1, 0], [6, 0, 1, 2], [6, -4, 0, 3], [0, 4, 2, 1]])
        X = [rr.choice([par[0], par[0], par[1], rr.randint(-9, 9)]) for _ in range(n)] if j % 2 else X
    elif f == "weierstrass":
        par, X = rr.choice([[20, 3], [12, 5]]), [rr.randint(-2, 2) for _ in range(n)]
    elif f == "griewank":
        X = [rr.choice([-2, -1, 0, 0, 1, 2, 4]) if k < 9 else rr.choice([0, 2]) for k in range(n)]
        if j // 12 % 2:        # no factor of the product vanishes
            n = rr.choice([14, 20, 31])
            X = [rr.choice([-2, 2]) * (rr.random() < .2) for k in range(n)]
    elif f == "langermann":    # more than five peaks
        m, n = rr.choice([6, 7, 9]), rr.choice([1, 2, 3])
        on = set(rr.sample(range(m), 3)) | {m - 1}
        par = [[rr.choice([-3, 1, 2, 4]) if k in on else 0 for k in range(m)], [[rr.randint(0, 9) for _ in range(n)] for _ in range(m)]]
        X = [x + rr.choice([0, 0, 1]) for x in par[1][rr.choice(sorted(on))]]
    elif f == "cosine":
        par, X = [rr.choice([1, 3, -2]), [rr.choice([1, 2, 4]) for _ in range(n)], [rr.choice([1, 2, 3]) for _ in range(n)]], [rr.randint(-2, 5) for _ in range(n)]
    elif f == "gaussian":
        par, X = [1, rr.choice([1, 3])], [int(rr.random() < .3) * rr.choice([-1, 1]) for _ in range(n)]
    elif f == "schwefel":
        par, X = [rr.choice([418983, 0])], [rr.randint(-9, 9) for _ in range(n)]
    elif f == "ackley":
        par, r = rr.choice([[20, 1], [10, 2]]), rr.choice([0, 1, 2, 3])
        X = [rr.choice([-2, 2]) * r for _ in range(n)]
    R.case("scalar", scalar, f, par, X, sc, j, f=f, par=par, X=X)
for N, r in ((5, 5), (16, 6), (29, 7), (44, 8)):
    R.case("lunacek-default", lundef, N, r, N=N, r=r)
for check in (True, False, 2):
    for f, lo, hi in (("zdt1", 0, 1), ("zdt2", 0, 1), ("zdt3", 0, 1), ("zdt6", 0, 1), ("zdt4", -5, 5)):
        for n in (2, 3, 5):
            for i in range(n):
                a, b = (0, 1) if i == 0 else (lo, hi)
                for v, ok in ((a, True), (b, True), (a - .01, False), (b + .01, False)):
                    ph = [.5] * n
                    ph[i] = v
                    if not check and not ok and i == 0:
                        continue
                    R.case("outside", outside, f, n, ph, check, check=bool(check), inside=ok, f=f)
    if True:
        for n, L, bad in ((2, 35, 0), (2, 34, 0), (2, 36, 0), (3, 40, 0), (3, 35, 0), (2, 35, 2), (2, 35, -1)):
            ph = [0] * L
            ph[3] = bad
            R.case("outside", outside, "zdt5", n, ph, check, check=bool(check), inside=L == 25 + 5 * n and bad == 0, f="zdt5")
R.close()
