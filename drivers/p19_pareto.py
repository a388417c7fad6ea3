import operator
import drv, mo
import numpy as np
from leap_ec.multiobjective.ops import fast_nondominated_sort, rank_ordinal_sort
R = drv.Rec()


def cmp(a, b, dirs, style):
    x, y = mo.pop_of([a, b], dirs, style)
    r = dict(gt=bool(x > y), lt=bool(x < y), eq=bool(x == y), ne=bool(x != y), le=bool(x <= y), ge=bool(x >= y))
    r["same"] = mo.vec(x) == list(a) and mo.vec(y) == list(b)
    return r


def ranking(vecs, dirs, npar, fn, style, warm=()):
    pop = mo.pop_of(vecs, dirs, style)
    # earlier sorts the same individuals went through (survivors are sorted again)
    for f, ks in warm:
        FN[f]([pop[k] for k in ks])
    idx = {id(x): k + 1 for k, x in enumerate(pop)}
    cut = len(pop) - npar
    off, par = pop[:cut], pop[cut:]
    o2, p2 = list(off), list(par)
    if npar:
        out = fn(off, parents=par) if style % 2 else fn(parents=par)(off)
    else:
        out = fn(off) if style % 3 else fn(off, parents=None)
    same = len(o2) == len(off) and len(p2) == len(par) and all(a is b for a, b in zip(o2 + p2, off + par)) and [mo.vec(x) for x in pop] == [list(v) for v in vecs]
    return dict(fit=[list(v) for v in vecs], out=[idx.get(id(x), 0) for x in out], rk=[mo.rank(x) for x in pop], same=same)


def repeats(vecs, dirs, given, npar, fn, style):
    """Individuals selected more than once, or offspring that are their parents (never cloned)."""
    pop = mo.pop_of(vecs, dirs, style)
    idx = {id(x): k + 1 for k, x in enumerate(pop)}
    cut = len(given) - npar
    off, par = [pop[k - 1] for k in given[:cut]], [pop[k - 1] for k in given[cut:]]
    o2, p2 = list(off), list(par)
    out = fn(off, parents=par) if npar else fn(off)
    same = len(o2) == len(off) and len(p2) == len(par) and all(a is b for a, b in zip(o2 + p2, off + par)) and [mo.vec(x) for x in pop] == [list(v) for v in vecs]
    return dict(fit=[list(v) for v in vecs], out=[idx.get(id(x), 0) for x in out], rk=[mo.rank(x) if hasattr(x, "rank") else 0 for x in pop], same=same)


FN = dict(fast=fast_nondominated_sort, ordinal=rank_ordinal_sort)
V2 = [[a, b] for a in range(3) for b in range(3)]
for dirs in ([True, True], [True, False], [False, True], [False, False]):
    for a in V2:
        for b in V2:
            R.case("cmp", cmp, a, b, dirs, (a[0] + b[1]) % 4, a=a, b=b, dirs=dirs)
rr = R.rng
for j in range(3000 if R.thorough else 300):
    m = rr.randint(1, 4)
    dirs = [rr.random() < .5 for _ in range(m)]
    a, b = mo.rand_vecs(rr, 2, m, 2)
    R.case("cmp", cmp, a, b, dirs, j % 4, a=a, b=b, dirs=dirs)
for j, g in enumerate(R.gen()):
    for f in FN:
        R.case("rank", ranking, g["vecs"], g["dirs"], (j // 2) % 3, FN[f], j // 2, dirs=g["dirs"], by=f)
for j in range(6000 if R.thorough else 700):
    m, n = rr.randint(1, 4), rr.randint(1, 9)
    dirs = [rr.random() < .5 for _ in range(m)]
    vs = mo.rand_vecs(rr, n, m, rr.choice([1, 2, 5]))
    if j % 4 == 0:
        vs = vs + [list(v) for v in vs[:rr.randint(0, n)]]
    npar = rr.randint(0, len(vs) - 1)
    for f in FN:
        R.case("rank", ranking, vs, dirs, npar, FN[f], j, dirs=dirs, by=f)
for j in range(4000 if R.thorough else 800):
    m, n = rr.randint(1, 3), rr.randint(2, 8)
    dirs = [rr.random() < .5 for _ in range(m)]
    vs = mo.rand_vecs(rr, n, m, rr.choice([1, 2, 5]))
    warm = [(rr.choice(list(FN)), rr.sample(range(n), rr.randint(1, n))) for _ in range(rr.randint(1, 3))]
    for f in FN:
        R.case("rank", ranking, vs, dirs, rr.randint(0, n - 1), FN[f], j, warm, dirs=dirs, by=f)
for j in range(3000 if R.thorough else 400):
    m, n = rr.randint(1, 3), rr.randint(1, 6)
    dirs = [rr.random() < .5 for _ in range(m)]
    vs = mo.rand_vecs(rr, n, m, rr.choice([1, 2, 5]))
    given = [rr.randint(1, n) for _ in range(rr.randint(1, 8))]
    npar = rr.randint(0, len(given) - 1)
    for f in FN:
        R.case("repeats", repeats, vs, dirs, given, npar, FN[f], j, dirs=dirs, by=f, given=given)
for j in range(40 if R.thorough else 8):
    m = rr.randint(1, 6)
    dirs = [rr.random() < .5 for _ in range(m)]
    vs = mo.distinct_vecs(rr, rr.choice([30, 60, 90]), m, 5000) if j % 2 else mo.rand_vecs(rr, 70, m, 3)
    for f in FN:
        R.case("rank", ranking, vs, dirs, rr.choice([0, 10, 25]), FN[f], j, dirs=dirs, by=f)
for j in range(60 if R.thorough else 8):
    dirs = [rr.random() < .5 for _ in range(8)]      # many objectives
    a, b = mo.rand_vecs(rr, 2, 8, 1)
    R.case("cmp", cmp, a, b, dirs, j, a=a, b=b, dirs=dirs)
    b = list(a)
    b[rr.randrange(8)] += 1
    R.case("cmp", cmp, a, b, dirs, j, a=a, b=b, dirs=dirs)
for j in range(40 if R.thorough else 6):
    m = rr.randint(2, 3)
    dirs = [rr.random() < .5 for _ in range(m)]
    vs = mo.rand_vecs(rr, 40, m, 9)
    for f in FN:
        R.case("rank", ranking, vs, dirs, 20, FN[f], j, dirs=dirs, by=f)
for j in range(8 if R.thorough else 2):      # hundreds of individuals and of fronts
    m, n = [2, 3][j % 2], [290, 330][(j // 2) % 2]
    dirs = [rr.random() < .5 for _ in range(m)]
    if j % 4 < 2:      # one long chain: every individual a front of its own
        vs = [[k if d else -k for d in dirs] for k in range(n)]
        rr.shuffle(vs)
    else:
        vs = mo.distinct_vecs(rr, n, m, 9000)
    for f in FN:
        R.case("rank", ranking, vs, dirs, rr.choice([0, 100]), FN[f], j, dirs=dirs, by=f)
R.close()
