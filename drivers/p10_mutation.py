import collections, math
import drv, mk
import numpy as np
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem
from leap_ec.binary_rep import ops as bops
from leap_ec.int_rep import ops as iops
from leap_ec.real_rep import ops as rops
from leap_ec.real_rep.ops import apply_hard_bounds
R = drv.Rec()
PROB = FunctionProblem(lambda x: 0, maximize=True)
S = 3000


def ind(g):
    x = Individual(g, IdentityDecoder(), PROB)
    x.fitness = 5
    return x


def toks(g):
    return tuple(drv.num(v) for v in g)


def observe(op, mkgenome, n, genome_fn=False):
    """Apply op n times to fresh copies; count distinct outcomes."""
    outs, ok = collections.Counter(), True
    for _ in range(n):
        g = mkgenome()
        if genome_fn:
            h = op(g)
        else:
            x = ind(g)
            y = next(op(iter([x])))
            ok = ok and y is x
            h = y.genome
        ok = ok and isinstance(h, np.ndarray) and h.dtype == mkgenome().dtype
        outs[toks(h)] += 1
    return dict(outs=[dict(g=list(g), n=k) for g, k in sorted(outs.items())], typeok=bool(ok))


def rates(L, r, k):
    """('prob', p) or ('expected', e) as kwargs, for rate r = (pn, pd)."""
    p = r[0] / r[1]
    return dict(probability=p) if k % 2 else dict(expected_num_mutations=p * L)


# --- bit flip ------------------------------------------------------------
k = 0
for L in range(1, 6 if R.thorough else 5):
    for code in range(2 ** L):
        g = [(code >> j) & 1 for j in range(L)]
        for r in ((0, 1), (1, 2), (1, 1)):
            k += 1
            dt = [bool, int, np.int8, np.uint8, float][k % 5]
            fn = k % 3 == 0
            op = (bops.genome_mutate_bitflip if fn else bops.mutate_bitflip)(**rates(L, r, k))
            R.case("bitflip", observe, op, lambda: np.array(g, dtype=dt), 12, fn, g=g, pn=r[0], pd=r[1], n=12, stat=False, dtype=str(dt))
for L, r in ((4, (1, 2)), (3, (1, 4)), (5, (1, 5)), (2, (3, 4)), (1, (1, 2)), (6, (1, 6))):
    for kk in (0, 1):
        for fn in (False, True):
            g = [j % 2 for j in range(L)]
            op = (bops.genome_mutate_bitflip if fn else bops.mutate_bitflip)(**rates(L, r, kk))
            R.case("bitflip", observe, op, lambda: np.array(g, dtype=bool if kk else int), S, fn, g=g, pn=r[0], pd=r[1], n=S, stat=True)

def many(op, g, n, genome_fn, dt):
    """Long genomes: per-gene and total flips only."""
    L, hits, ok, nonbit = len(g), [0] * len(g), True, 0
    for _ in range(n):
        x = np.array(g, dtype=dt)
        if genome_fn:
            h = op(x)
        else:
            y = ind(x)
            z = next(op(iter([y])))
            ok = ok and z is y
            h = z.genome
        ok = ok and len(h) == L and h.dtype == np.array(g, dtype=dt).dtype
        for j in range(L):
            nonbit += h[j] not in (0, 1)
            hits[j] += int(h[j]) != g[j]
    return dict(hits=hits, total=sum(hits), typeok=bool(ok), nonbit=nonbit)


for L, r, n in ((40, (1, 2), 60), (100, (1, 4), 60), (200, (1, 200), 1500), (64, (1, 1), 20), (300, (0, 1), 20), (50, (1, 10), 400), (1000, (1, 2), 50)):
    for kk in (0, 1):
        g = [R.rng.randint(0, 1) for _ in range(L)]
        fn = (L // 10 + kk) % 2 == 0
        op = (bops.genome_mutate_bitflip if fn else bops.mutate_bitflip)(**rates(L, r, kk))
        R.case("bitmany", many, op, g, n, fn, [bool, int, np.int8][(L + kk) % 3], len=L, pn=r[0], pd=r[1], n=n)


def wide(b, r, n, fn, k):
    """Long integer genomes with wide bounds: which quarter of its domain each drawn value falls in."""
    L, q, changed, outside, ok = len(b), [0] * 4, 0, 0, True
    op = iops.individual_mutate_randint(bounds=b, **rates(L, r, k)) if fn else iops.mutate_randint(bounds=b, **rates(L, r, k))
    for _ in range(n):
        g = np.array([hi + 5 for lo, hi in b])
        h = op(g) if fn else next(op(iter([ind(g)]))).genome
        ok = ok and len(h) == L and h.dtype == np.array([1]).dtype
        for j, (lo, hi) in enumerate(b):
            v = int(h[j])
            if v != hi + 5:
                changed += 1
                if lo <= v <= hi:
                    q[(v - lo) * 4 // (hi - lo + 1)] += 1
                else:
                    outside += 1
    return dict(q=q, changed=changed, outside=outside, typeok=bool(ok))


for b, r, n in (([(0, 999)] * 30, (1, 1), 100), ([(-4000, 3999), (10, 49), (-900000, -100001)] * 10, (1, 2), 200), ([(0, 7)] * 120, (1, 4), 100), ([(-2 ** 31, 2 ** 31 - 1)] * 20, (1, 1), 200)):
    for fn in (False, True):
        R.case("intwide", wide, b, r, n, fn, len(b) + fn, n=n * len(b), pn=r[0], pd=r[1])

# one operator on a stream of individuals of different lengths: the rate follows each genome's own length
def mixed(lens, n):
    res = []
    src = (ind(np.zeros(l, dtype=int)) for _ in range(n) for l in lens)
    it = bops.mutate_bitflip(expected_num_mutations=1)(src)
    cnt = {l: collections.Counter() for l in lens}
    for _ in range(n):
        for l in lens:
            y = next(it)
            cnt[l][toks(y.genome)] += 1
    return cnt


try:
    CNT = mixed([2, 4, 5], S)
    for l in (2, 4, 5):
        R.case("bitflip", lambda: dict(outs=[dict(g=list(g), n=c) for g, c in sorted(CNT[l].items())], typeok=True), g=[0] * l, pn=1, pd=l, n=S, stat=True)
except Exception as e:
    R.case("bitflip", lambda: (_ for _ in ()).throw(RuntimeError(repr(e))))

# --- random integer ------------------------------------------------------
BS = [[(0, 2)], [(0, 1), (5, 5)], [(-2, 1), (3, 6), (0, 0)], [(0, 3)] * 3, [(-3, -1), (7, 9)], [(0, 1), (-1, 2), (4, 4), (0, 2)]]
k = 0
for b in BS:
    L = len(b)
    for off in (False, True):
        g = [lo if not off else hi + 3 for lo, hi in b]
        for r in ((0, 1), (1, 2), (1, 1)):
            for fn in (False, True):
                k += 1
                kw = rates(L, r, k)
                bb = [b, np.array(b), [list(x) for x in b]][k % 3]
                op = iops.individual_mutate_randint(bounds=bb, **kw) if fn else iops.mutate_randint(bounds=bb, **kw)
                R.case("randint", observe, op, lambda: np.array(g, dtype=[int, np.int16][k % 2]), S if r != (0, 1) else 60, fn, g=g, bounds=b, pn=r[0], pd=r[1], n=S if r != (0, 1) else 60, stat=r != (0, 1))

# --- Gaussian -----------------------------------------------------------
def bounds_of(b, form):
    return {"shared": b, "list": [b] * 4, "array": np.array([b] * 4), "none": None}[form]


def clip(mkop, genomes, low, high, frozen, genome_fn, dtype=None):
    outside = moved = wrong = 0
    ok = True
    shape = []
    for g0 in genomes:
        g = np.array(g0, dtype=dtype)
        dt = g.dtype
        x = ind(g.copy())
        h = mkop()(g.copy()) if genome_fn else next(mkop()(iter([x]))).genome
        ok = ok and len(h) == len(g) and h.dtype == dt
        for a, v, lo, hi in zip(g, h, low, high):
            if v < lo or v > hi:
                outside += 1
            if lo <= a <= hi and v != a:
                moved += 1
            if frozen and (a < lo and v != lo or a > hi and v != hi):
                wrong += 1
    return dict(g=[0], outs=[dict(g=[0], n=1)], typeok=bool(ok), outside=outside, moved=moved, wrongclip=wrong)


GS = [[R.rng.uniform(-3, 3) for _ in range(4)] for _ in range(60)] + [[-1., 1., 0., .5], [5., -5., 1.5, -1.5]]
for form in ("shared", "list", "array"):
    for (lo, hi) in ((-1., 1.), (0., .5), (-.25, 2.), (1., 1.)):
        for std, e in ((1., "isotropic"), (.5, 2), (0., "isotropic"), (3., 0), ([1., .5, .25, 3.], 3), (2., 4)):
            for fn in (False, True):
                mkop = lambda: (rops.genome_mutate_gaussian if fn else rops.mutate_gaussian)(std=std, expected_num_mutations=e, bounds=bounds_of((lo, hi), form))
                R.case("clip", clip, mkop, GS, [lo] * 4, [hi] * 4, (std == 0. or e == 0), fn, frozen=std == 0. or e == 0, op="gaussian", form=form)
for dt in (np.float32, np.float16):
    for form in ("shared", "list", "array"):
        for fn in (False, True):
            mkop = lambda: (rops.genome_mutate_gaussian if fn else rops.mutate_gaussian)(std=1., expected_num_mutations=2, bounds=bounds_of((-.25, 2.), form))
            R.case("clip", clip, mkop, GS, [-.25] * 4, [2.] * 4, False, fn, dt, frozen=False, op="gaussian", form=form)
PER = [(-1., 1.), (0., 3.), (-2., -1.), (2., 2.)]
for fn in (False, True):
    for bb in (PER, np.array(PER)):
        mkop = lambda: (rops.genome_mutate_gaussian if fn else rops.mutate_gaussian)(std=1.0, expected_num_mutations="isotropic", bounds=bb)
        R.case("clip", clip, mkop, GS, [b[0] for b in PER], [b[1] for b in PER], False, fn, frozen=False, op="gaussian", form="per-gene")
        R.case("clip", clip, lambda: lambda g: apply_hard_bounds(g, bb), GS, [b[0] for b in PER], [b[1] for b in PER], True, True, frozen=True, op="apply_hard_bounds", form="per-gene")


def transform(slope, icpt, fn, bounds):
    wrong, ok = 0, True
    for g0 in GS:
        g = np.array(g0)
        kw = dict(std=0., expected_num_mutations="isotropic", transform_slope=slope, transform_intercept=icpt, bounds=bounds)
        h = rops.genome_mutate_gaussian(**kw)(g.copy()) if fn else next(rops.mutate_gaussian(**kw)(iter([ind(g.copy())]))).genome
        ok = ok and len(h) == len(g)
        for a, v in zip(g, h):
            want = min(max(slope * a + icpt, bounds[0]), bounds[1])
            if abs(v - want) > 1e-9:
                wrong += 1
    return dict(wrong=wrong, typeok=ok)


for slope, icpt in ((1., 0.), (2., 0.), (1., -.5), (-1., 3.)):
    for b in ((-math.inf, math.inf), (-1., 1.)):
        for fn in (False, True):
            R.case("transform", transform, slope, icpt, fn, b)


def noise(L, std, e, fn, n):
    """Counters of Gaussian noise on genes at 0 (no bounds)."""
    changed = pos = in50 = in90 = both = bpos = 0
    stds = std if isinstance(std, list) else [std] * L
    op = (rops.genome_mutate_gaussian if fn else rops.mutate_gaussian)(std=std, expected_num_mutations=e)
    for _ in range(n):
        g = np.full(L, 10.)
        h = op(g) if fn else next(op(iter([ind(g)]))).genome
        d = [(v - 10.) / s for v, s in zip(h, stds)]
        for x in d:
            if x != 0:
                changed += 1
                pos += x > 0
                in50 += abs(x) < .67449
                in90 += abs(x) < 1.64485
        both += sum(1 for j in range(L - 1) if d[j] != 0 and d[j + 1] != 0)
        bpos += sum(1 for j in range(L - 1) if d[j] > 0 and d[j + 1] > 0)
    return dict(changed=changed, bothpositive=bpos, positive=pos, in50=in50, in90=in90, both=both, pairs=n * (L - 1))


for L, std, e, r in ((4, 1., "isotropic", (1, 1)), (4, .25, 2, (1, 2)), (3, 2.5, 3, (1, 1)), (4, [1., .1, 5., 2.], 2, (1, 2)), (5, 1., 2, (2, 5)), (50, 3., 25, (1, 2)), (80, .1, "isotropic", (1, 1))):
    for fn in (False, True):
        n = 4000 if L < 10 else 120
        R.case("noise", noise, L, std, e, fn, n, n=n * L, pn=r[0], pd=r[1])

# --- binomial -------------------------------------------------------------
def narrow(dt, lo, hi, std, fn, n, kw):
    """Genes near the ends of a small integer type: noise never comes out on the other side."""
    far = outside = 0
    ok = True
    g0 = [lo, lo + 1, lo + 3, (lo + hi) // 2, hi - 3, hi - 1, hi]
    mk = iops.genome_mutate_binomial if fn else iops.mutate_binomial
    op = mk(std=std, bounds=[(lo, hi)] * len(g0), **kw)
    for _ in range(n):
        g = np.array(g0, dtype=dt)
        h = op(g) if fn else next(op(iter([ind(g)]))).genome
        ok = ok and h.dtype == dt and len(h) == len(g0)
        far += sum(abs(int(b) - a) > 12 * std for a, b in zip(g0, h))
        outside += sum(not lo <= int(b) <= hi for b in h)
    return dict(far=far, outside=outside, typeok=bool(ok))


for k, (dt, lo, hi) in enumerate(((np.uint8, 0, 255), (np.int8, -128, 127), (np.uint16, 0, 500), (np.uint8, 2, 100), (np.int64, -300, 300), (np.int16, -30000, 32767))):
    for std in (1., 4.):
        for fn in (False, True):
            for kw in (dict(probability=1.), dict(expected_num_mutations=3)):
                R.case("narrow", narrow, dt, lo, hi, std, fn, 60, kw)


def intnoise(L, std, kw, fn, n, nn):
    tot = changed = s = sq = m = signs = agree = 0
    ok = True
    stds = std if isinstance(std, list) else [std] * L
    bounds = [(-10 ** 5, 10 ** 5)] * L
    skw = dict(std=std, bounds=bounds, **kw)
    if nn:
        skw["n"] = nn
    op = iops.genome_mutate_binomial(**skw) if fn else iops.mutate_binomial(**skw)
    for _ in range(n):
        g = np.full(L, 50)
        h = op(g) if fn else next(op(iter([ind(g)]))).genome
        ok = ok and h.dtype == np.full(L, 50).dtype and len(h) == L
        d0, d1 = int(h[0]) - 50, int(h[1]) - 50
        if abs(d0) > 2 and abs(d1) > 2:
            signs += 1
            agree += (d0 > 0) == (d1 > 0)
        for j in range(L):
            tot += 1
            d = int(h[j]) - 50
            if d:
                changed += 1
            if stds[j] == stds[0]:
                m += 1
                s += d
                sq += d * d
    return dict(signs=signs, agree=agree, sum=s, sumsq=sq, changed=changed, total=tot, n=m, integers=bool(ok))


for L, std, kw, r, nn in ((3, 12, dict(probability=1.0), (1, 1), None), (3, 15, dict(expected_num_mutations=3), (1, 1), None), (2, 20, dict(probability=1.0), (1, 1), 2000), (3, [9, 9, 30], dict(probability=1.0), (1, 1), None)):
    for fn in (False, True):
        R.case("intnoise", intnoise, L, std, kw, fn, 3000, nn, pn=r[0], pd=r[1], std=std[0] if isinstance(std, list) else std)


def flips(L, n, pm, fn, reps):
    """few coin flips: the shift is Binomial(n, 1/2) about its mean, so at most n/2 either way"""
    kw = dict(std=n ** .5 / 2, bounds=(-10 ** 5, 10 ** 5), n=n, probability=pm)
    op = iops.genome_mutate_binomial(**kw) if fn else iops.mutate_binomial(**kw)
    seen = {}
    for _ in range(reps):
        g = np.full(L, 50)
        h = op(g) if fn else next(op(iter([ind(g)]))).genome
        for v in h:
            seen[int(v) - 50] = seen.get(int(v) - 50, 0) + 1
    return dict(freq=[seen.pop(d, 0) for d in range(-n // 2, n // 2 + 1)], beyond=sum(seen.values()))


for flipn, L in ((4, 3), (4, 20), (16, 5)):
    for fn in (False, True):
        R.case("flips", flips, L, flipn, 1., fn, 6000 // L, flips=flipn, n=6000 // L * L)


def intrate(L, std, kw, fn, n):
    o = intnoise(L, std, kw, fn, n, None)
    # scale out selection: judge only the selection rate here
    o["sum"], o["sumsq"], o["n"] = 0, std * std * 10, 10
    return o


for L, kw, r in ((4, dict(expected_num_mutations=1), (1, 4)), (4, dict(probability=.5), (1, 2)), (3, dict(probability=0.), (0, 1)), (5, dict(expected_num_mutations=2), (2, 5))):
    for fn in (False, True):
        R.case("intnoise", intrate, L, 30, kw, fn, 3000, pn=r[0], pd=r[1], std=30)
for L, n, kw, r in ((40, 1500, dict(expected_num_mutations=2), (1, 20)), (100, 600, dict(probability=.05), (1, 20))):
    for fn in (False, True):
        R.case("intnoise", intrate, L, 30, kw, fn, n, pn=r[0], pd=r[1], std=30)
GL = [[R.rng.uniform(-30, 30) for _ in range(45)] for _ in range(20)]
LB = [(-1. - j, j * .5) for j in range(45)]
for fn in (False, True):
    for e in ("isotropic", 1, 45):
        R.case("clip", clip, lambda: (rops.genome_mutate_gaussian if fn else rops.mutate_gaussian)(std=5., expected_num_mutations=e, bounds=LB), GL, [b[0] for b in LB], [b[1] for b in LB], False, fn, frozen=False, op="gaussian", form="long")
    R.case("clip", clip, lambda: (rops.genome_mutate_gaussian if fn else rops.mutate_gaussian)(std=5., expected_num_mutations=3, bounds=np.array(LB)), GL, [b[0] for b in LB], [b[1] for b in LB], False, fn, frozen=False, op="gaussian", form="long-array")
    IL, IB = [[R.rng.randint(-60, 60) for _ in range(30)] for _ in range(20)], [(-j, 2 * j) for j in range(30)]
    for bb in (IB, np.array(IB)):
        R.case("clip", clip, lambda: (iops.genome_mutate_binomial if fn else iops.mutate_binomial)(std=9, bounds=bb, probability=.5), IL, [b[0] for b in IB], [b[1] for b in IB], False, fn, frozen=False, op="binomial", form="long")


def ownstd(real, stds, e, fn, n, prob):
    """each gene has its own width: a gene of width 0 never moves, the others move by their own width"""
    L, still, hits, off = len(stds), 0, 0, 0
    kw = dict(probability=e / L) if prob and not real else dict(expected_num_mutations=e)
    if real:
        op = (rops.genome_mutate_gaussian if fn else rops.mutate_gaussian)(std=stds, **kw)
    else:
        op = (iops.genome_mutate_binomial if fn else iops.mutate_binomial)(std=stds, bounds=(-10 ** 5, 10 ** 5), **kw)
    for _ in range(n):
        g = np.full(L, 50. if real else 50)
        h = op(g) if fn else next(op(iter([ind(g)]))).genome
        for j in range(L):
            d = abs(h[j] - 50)
            if stds[j] == 0:
                still += d != 0
            else:
                hits += d != 0
                off += d > 12 * stds[j] + 1
    return dict(still=still, hits=hits, off=off)


for real in (True, False):
    for fn in (False, True):
        for stds, e, r in (([0, 30, 0, 30], 2, (1, 2)), ([0, 0, 0, 20, 20], 1, (1, 5)), ([48, 6, 48, 6, 0, 0, 0, 0], 4, (1, 2)), ([0] * 15 + [25] * 15, 15, (1, 2))):
            n = 24000 // len(stds)
            R.case("ownstd", ownstd, real, stds, e, fn, n, e % 2 == 0, n=n * sum(s > 0 for s in stds), pn=r[0], pd=r[1])


def mixlens(which, lens, n):
    """one operator on a stream of genomes of different lengths: the expected number of mutations holds for each"""
    op = {"gaussian": lambda: rops.mutate_gaussian(std=40., expected_num_mutations=1), "binomial": lambda: iops.mutate_binomial(std=40, bounds=(-10 ** 5, 10 ** 5), expected_num_mutations=1),
          "randint": lambda: iops.mutate_randint(bounds=[(100, 999)] * lens[0], expected_num_mutations=1), "bitflip": lambda: bops.mutate_bitflip(expected_num_mutations=1)}[which]()
    src = (ind(np.zeros(l, dtype=float if which == "gaussian" else int)) for _ in range(n) for l in lens)
    it, hits = op(src), [0] * len(lens)
    for _ in range(n):
        for j, l in enumerate(lens):
            y = next(it)
            hits[j] += int(np.count_nonzero(y.genome)) if len(y.genome) == l else 10 ** 6
    return dict(hits=hits)


for which, lens in (("gaussian", [2, 5, 3]), ("gaussian", [10, 1]), ("binomial", [2, 5, 3]), ("binomial", [10, 1]), ("randint", [6, 6]), ("bitflip", [10, 2, 6])):
    R.case("mixlens", mixlens, which, lens, 3000, lens=lens, n=3000)
IG = [[R.rng.randint(-9, 9) for _ in range(3)] for _ in range(60)]
for b in ([(0, 4), (-2, 2), (3, 3)], [(0, 1)] * 3, [(-5, 5), (-1, 9), (0, 0)]):
    for std, kw in ((3, dict(probability=1.0)), (2, dict(expected_num_mutations=1)), (2, dict(probability=0.0))):
        for fn in (False, True):
            fz = kw.get("probability") == 0.0
            for bb in (b, np.array(b)):
                mkop = lambda: iops.genome_mutate_binomial(std=std, bounds=bb, **kw) if fn else iops.mutate_binomial(std=std, bounds=bb, **kw)
                R.case("clip", clip, mkop, IG, [x[0] for x in b], [x[1] for x in b], fz, fn, frozen=fz, op="binomial", form="per-gene")


# --- rejected arguments -----------------------------------------------------
def rejected(f):
    return dict(error=drv.raises(f))


def go(op):
    return next(op(iter([ind(np.array([0, 1, 1]))])))


B3 = [(0, 2)] * 3
BAD = {
    "bit-both": lambda: go(bops.mutate_bitflip(expected_num_mutations=1, probability=.5)),
    "bit-none": lambda: go(bops.mutate_bitflip()),
    "bit-negative": lambda: go(bops.mutate_bitflip(probability=-.1)),
    "bit-above": lambda: go(bops.mutate_bitflip(probability=1.1)),
    "bit-expected-above": lambda: go(bops.mutate_bitflip(expected_num_mutations=4)),
    "bit-expected-negative": lambda: go(bops.mutate_bitflip(expected_num_mutations=-1)),
    "bit-list": lambda: bops.genome_mutate_bitflip([0, 1], probability=.5),
    "bitg-both": lambda: bops.genome_mutate_bitflip(np.array([0, 1]), probability=.5, expected_num_mutations=1),
    "bitg-none": lambda: bops.genome_mutate_bitflip(np.array([0, 1])),
    "bitg-above": lambda: bops.genome_mutate_bitflip(np.array([0, 1]), probability=1.5),
    "int-both": lambda: go(iops.mutate_randint(bounds=B3, expected_num_mutations=1, probability=.5)),
    "int-none": lambda: go(iops.mutate_randint(bounds=B3)),
    "int-negative": lambda: go(iops.mutate_randint(bounds=B3, probability=-.1)),
    "int-above": lambda: go(iops.mutate_randint(bounds=B3, probability=1.1)),
    "int-expected-above": lambda: go(iops.mutate_randint(bounds=B3, expected_num_mutations=4)),
    "intg-both": lambda: iops.individual_mutate_randint(np.array([0, 1, 1]), B3, probability=.5, expected_num_mutations=1),
    "intg-none": lambda: iops.individual_mutate_randint(np.array([0, 1, 1]), B3),
    "int-list": lambda: iops.individual_mutate_randint([0, 1, 1], B3, probability=.5),
    "bin-both": lambda: go(iops.mutate_binomial(std=1, bounds=B3, expected_num_mutations=1, probability=.5)),
    "bin-none": lambda: go(iops.mutate_binomial(std=1, bounds=B3)),
    "bin-negative": lambda: go(iops.mutate_binomial(std=1, bounds=B3, probability=-.1)),
    "bin-above": lambda: go(iops.mutate_binomial(std=1, bounds=B3, probability=1.1)),
    "bin-expected-above": lambda: go(iops.mutate_binomial(std=1, bounds=B3, expected_num_mutations=4)),
    "bin-wide": lambda: go(iops.mutate_binomial(std=100, bounds=B3, probability=.5, n=100)),
    "gauss-none": lambda: go(rops.mutate_gaussian(std=1.0)),
    "gauss-negative-std": lambda: go(rops.mutate_gaussian(std=-1.0, expected_num_mutations=1)),
    "gauss-expected-above": lambda: go(rops.mutate_gaussian(std=1.0, expected_num_mutations=4)),
    "gauss-list": lambda: rops.genome_mutate_gaussian([0., 1.], std=1.0, expected_num_mutations=1),
}
for name, f in BAD.items():
    R.case("rejected", rejected, f, what=name)
R.close()
