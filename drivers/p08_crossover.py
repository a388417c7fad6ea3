import collections
import drv
import numpy as np
from leap_ec import ops
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem
R = drv.Rec()
PROB = FunctionProblem(lambda x: 0, maximize=True)
# a genome holding tokens base+1..base+len in several physical forms
FORMS = {
    "int": lambda t: np.array(t), "float": lambda t: np.array(t, dtype=float), "i16": lambda t: np.array(t, dtype=np.int16),
    "list": list, "seg": lambda t: [np.array([x, x + 1000]) for x in t], "seglist": lambda t: [[x, "s"] for x in t],
}


def toks(g):
    out = []
    for x in g:
        if isinstance(x, np.ndarray):
            out.append(int(x[0]) if len(x) == 2 and x[1] == x[0] + 1000 else -1)
        elif isinstance(x, list):
            out.append(x[0] if len(x) == 2 and x[1] == "s" else -1)
        else:
            out.append(int(x))
    return out


def ind(g):
    x = Individual(g, IdentityDecoder(), PROB)
    x.fitness = 1.0
    return x


def run(make, form, la, lb, n, reuse):
    outs, ok = collections.Counter(), True
    ba, bb = (100, 200) if max(la, lb) < 100 else (10000, 20000)
    ta, tb = [ba + j for j in range(1, la + 1)], [bb + j for j in range(1, lb + 1)]
    op = make()
    for _ in range(n):
        if not reuse:
            op = make()
        A, B = ind(FORMS[form](ta)), ind(FORMS[form](tb))
        t = type(A.genome), getattr(A.genome, "dtype", None)
        it = op(iter([A, B]))
        c, d = next(it), next(it)
        ok = ok and all((type(x.genome), getattr(x.genome, "dtype", None)) == t for x in (c, d))
        outs[(tuple(toks(c.genome)), tuple(toks(d.genome)))] += 1
    return dict(a=ta, b=tb, outs=[dict(c=list(c), d=list(d), n=k) for (c, d), k in sorted(outs.items())], typeok=ok)


LMAX = 7 if R.thorough else 5
k = 0
for la in range(1, LMAX + 1):
    for lb in range(1, LMAX + 1):
        for pts in range(0, min(la, lb) + 1):
            forms = list(FORMS) if R.thorough else [list(FORMS)[(k + j * 2) % 6] for j in range(2)]
            for form in forms:
                k += 1
                R.case("nary", run, lambda: ops.NAryCrossover(num_points=pts), form, la, lb, 40, k % 2 == 0, pts=pts, n=40, stat=False, form=form)
STAT = 3000
for la, lb, pts in [(4, 4, 1), (4, 4, 2), (4, 4, 3), (3, 3, 3), (5, 5, 2), (2, 2, 1), (3, 5, 2), (5, 3, 1), (6, 6, 1), (1, 1, 1), (6, 4, 2)]:
    form = ["int", "list", "seg"][(la + pts) % 3]
    if pts == 2 and la % 2:
        mk = lambda: ops.NAryCrossover()
    else:
        mk = lambda: ops.NAryCrossover(num_points=pts)
    R.case("nary", run, mk, form, la, lb, STAT, True, pts=pts, n=STAT, stat=True, form=form)
for la in range(1, LMAX + 1):
    for lb in range(1, LMAX + 1):
        for pn, pd in ((0, 1), (1, 2), (1, 1)):
            for form in ("int", "float", "i16")[: 3 if R.thorough else 2]:
                k += 1
                R.case("uniform", run, lambda: ops.UniformCrossover(p_swap=pn / pd), form, la, lb, 30, k % 2 == 0, pn=pn, pd=pd, n=30, stat=False, form=form)
for la, lb, pn, pd in [(4, 4, 1, 2), (3, 3, 1, 5), (4, 3, 4, 5), (2, 5, 1, 4), (5, 5, 9, 10), (1, 1, 1, 2)]:
    mk = (lambda: ops.UniformCrossover()) if (pn, pd) == (1, 5) else (lambda: ops.UniformCrossover(p_swap=pn / pd))
    R.case("uniform", run, mk, "int", la, lb, STAT, True, pn=pn, pd=pd, n=STAT, stat=True, form="int")


# long genomes, many cut points
for j in range(240 if R.thorough else 60):
    la, lb = R.rng.choice([(20, 20), (33, 33), (64, 64), (40, 21), (17, 90), (128, 128), (200, 130), (12, 12)])
    pts = R.rng.choice([0, 1, 2, 3, 5, 8, 11, min(la, lb) - 1, min(la, lb), R.rng.randint(0, min(la, lb))])
    R.case("nary", run, lambda: ops.NAryCrossover(num_points=pts), R.rng.choice(list(FORMS)), la, lb, 3, j % 2 == 0, pts=pts, n=3, stat=False)
    pn, pd = [(0, 1), (1, 2), (1, 1), (1, 10)][j % 4]
    R.case("uniform", run, lambda: ops.UniformCrossover(p_swap=pn / pd), ("int", "float", "i16")[j % 3], la, lb, 3, j % 2 == 0, pn=pn, pd=pd, n=3, stat=False)


def longcuts(L, pts, n, reuse):
    """How often each locus is preceded by a change of source (pts of the L places, chosen uniformly)."""
    hits = [0] * L
    op = ops.NAryCrossover(num_points=pts)
    for _ in range(n):
        if not reuse:
            op = ops.NAryCrossover(num_points=pts)
        A, B = ind(np.arange(L)), ind(np.arange(L) + 1000)
        c = next(op(iter([A, B]))).genome
        src = c >= 1000
        for j in range(L):
            hits[j] += bool(src[j]) != (bool(src[j - 1]) if j else False)
    return dict(hits=hits)


for L, pts in ((25, 1), (20, 2), (30, 10), (12, 11)):
    R.case("longcuts", longcuts, L, pts, 4000, pts % 2 == 0, len=L, pts=pts, n=4000)


def longswap(L, p, n):
    hits = [0] * L
    for _ in range(n):
        A, B = ind(np.arange(L)), ind(np.arange(L) + 1000)
        for j, v in enumerate(next(ops.UniformCrossover(p_swap=p)(iter([A, B]))).genome):
            hits[j] += v >= 1000
    return dict(hits=hits)


for L, pn, pd in ((25, 1, 2), (40, 4, 5), (30, 1, 4)):
    R.case("longswap", longswap, L, pn / pd, 4000, len=L, pn=pn, pd=pd, n=4000)


def rejected(la, lb, pts, form):
    A, B = ind(FORMS[form]([100 + j for j in range(la)])), ind(FORMS[form]([200 + j for j in range(lb)]))
    it = ops.NAryCrossover(num_points=pts)(iter([A, B]))
    return dict(error=drv.raises(lambda: next(it)))


for la, lb, pts in [(1, 1, 2), (2, 3, 3), (3, 2, 3), (1, 5, 2), (5, 1, 2), (4, 4, 5), (2, 9, 4)]:
    for form in ("int", "list", "seg"):
        R.case("rejected", rejected, la, lb, pts, form)
R.close()
