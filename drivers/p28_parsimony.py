import drv
import numpy as np
from leap_ec import ops
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem
from leap_ec.parsimony import lexical_parsimony, koza_parsimony
R = drv.Rec()
rr = R.rng
CONV = [int, float, np.float64]


def build(pop, mx, style):
    p = FunctionProblem(lambda x: 0, maximize=mx)
    out = []
    for d in pop:
        g = [rr.randint(0, 1) for _ in range(d["n"])]
        x = Individual([np.array(g), g, [np.array([v]) for v in g]][style % 3], IdentityDecoder(), p)
        x.fitness = CONV[style % 3](d["f"])
        out.append(x)
    return out


def keyf(key, pen2, style):
    if key == "lex":
        return lexical_parsimony
    pen = pen2 / 2 if pen2 % 2 or style % 2 else pen2 // 2
    return koza_parsimony(penalty=pen)


def run(kind, pop, mx, key, pen2, no, style, **a):
    X = build(pop, mx, style)
    at = {id(x): k + 1 for k, x in enumerate(X)}
    before = [(x.fitness, len(x.genome), x.uuid) for x in X]
    K = keyf(key, pen2, style)
    O, P = X[:no], X[no:]
    d = {}
    if kind == "order":
        ks = [K(x) for x in X]
        if key == "koza" and style % 2:
            ks = [koza_parsimony(x, penalty=pen2 / 2) for x in X]
        d = dict(lt=[[bool(p < q) for q in ks] for p in ks], eq=[[bool(p == q) for q in ks] for p in ks])
    elif kind == "truncation":
        kw = dict(parents=P) if a["withpar"] else {}
        res = ops.truncation_selection(list(O), size=a["size"], key=K, **kw) if style % 2 else ops.truncation_selection(size=a["size"], key=K, **kw)(list(O))
    elif kind == "elitist":
        res = ops.elitist_survival(list(O), parents=list(P), k=a["k"], key=K)
    elif kind == "insertion":
        res = ops.insertion_selection(list(O), parents=list(P), key=K)
    else:
        it = ops.tournament_selection(list(X), k=80, key=K, select_worst=a["worst"])
        res = [next(it) for _ in range(3)]
    if kind != "order":
        d = dict(kept=[at.get(id(x), 0) for x in res])
    return dict(d, same=before == [(x.fitness, len(x.genome), x.uuid) for x in X])


KINDS = ["order", "truncation", "elitist", "insertion", "tournament"]


def one(kind, pop, mx, key, k):
    pen2 = rr.choice([0, 1, 2, 3, 5]) if key == "koza" else 0
    n = len(pop)
    no = rr.randint(1, n - 1) if kind in ("elitist", "insertion") else (rr.randint(1, n) if kind == "truncation" else n)
    a = {}
    if kind == "truncation":
        wp = no < n and rr.random() < .7
        a = dict(withpar=wp, size=rr.randint(0, n if wp else no))
    elif kind == "elitist":
        a = dict(k=rr.randint(0, n - no))
    elif kind == "tournament":
        a = dict(worst=rr.random() < .4)
    R.case(kind, lambda: run(kind, pop, mx, key, pen2, no, k, **a), pop=pop, max=mx, key=key, pen2=pen2, no=no, **a)


for k, c in enumerate(R.gen()):
    for j in range(2):
        one(KINDS[(2 * k + j) % 5], c["pop"], c["max"], c["key"], k)
for k in range(2500 if R.thorough else 500):
    pop = [dict(f=rr.randint(-3, 3), n=rr.randint(0, 6)) for _ in range(rr.randint(2, 4))]
    one(KINDS[k % 5], pop, rr.random() < .5, rr.choice(["lex", "koza"]), k // 5)
for k in range(400 if R.thorough else 60):      # large populations, long genomes
    pop = [dict(f=rr.randint(-50, 50) if k % 2 else rr.randint(0, 1), n=rr.choice([0, 1, 7, 30, 31, 100, 130, 300, 777] if k % 4 else [300, 512, 1024, 1025])) for _ in range(rr.choice([15, 30]))]
    one(["truncation", "elitist", "order"][k % 3], pop, rr.random() < .5, rr.choice(["lex", "koza"]), k)
R.close()
