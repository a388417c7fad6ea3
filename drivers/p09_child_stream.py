import drv
import numpy as np
from leap_ec import ops
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem
R = drv.Rec()
PROB = FunctionProblem(lambda x: 0, maximize=True)


class Source:
    """Hands out fresh evaluated clones, numbered 1, 2, ... across all uses."""
    def __init__(self, kind):
        self.inds, self.was, self.uu, self.kind = [], [], {}, kind

    def uid(self, u):
        return self.uu.setdefault(u, len(self.uu) + 1)

    def state(self, x):
        g = x.genome
        toks = [int(t[0]) if isinstance(t, (np.ndarray, list)) else int(t) for t in g]
        return dict(g=toks, fit=drv.num(x.fitness), par=sorted(self.uid(u) for u in x.parents), uu=self.uid(x.uuid))

    def __iter__(self):
        return self

    def __next__(self):
        k = len(self.inds) + 1
        t = [10 * k + j for j in range(4)]
        g = np.array(t) if self.kind == "array" else [[x] for x in t]
        x = Individual(g, IdentityDecoder(), PROB).clone()
        if k % 3 == 0:
            x.parents.add(("extra", k))
        x.fitness = k
        self.inds.append(x)
        self.was.append(self.state(x))
        return x


def make(op, persist, p, k):
    kw = dict(p_xover=p) if p != 1 or k % 2 else {}
    if persist or k % 3:
        kw["persist_children"] = persist
    return ops.UniformCrossover(p_swap=.5, **kw) if op == "uniform" else ops.NAryCrossover(num_points=2, **kw)


def uses(seq, persist, op, p, k):
    s = Source("array" if op == "uniform" or k % 2 else "list")
    x = make(op, persist, p, k)
    evs = []
    for n in seq:
        # a fresh iterator object over the shared numbering: each use has its own source
        it = x(y for y in s)
        evs.append(dict(ev="use", out=0, taken=0))
        for _ in range(n):
            y = next(it)
            at = next((j + 1 for j, z in enumerate(s.inds) if z is y), 0)
            evs.append(dict(ev="pull", out=at, taken=len(s.inds)))
        if k % 4 == 0:
            it.close()
        del it
    return dict(evs=evs, was=s.was, now=[s.state(y) for y in s.inds], untouched=True)


def inter(sched, persist, op, p, k):
    """several uses consumed alternately; at the end a last use takes over what waits"""
    s = Source("array" if op == "uniform" or k % 2 else "list")
    x = make(op, persist, p, k)
    its, evs = [], []

    def pull(u):
        y = next(its[u - 1])
        evs.append(dict(u=u, out=next((j + 1 for j, z in enumerate(s.inds) if z is y), 0), taken=len(s.inds)))
    for u in sched:
        if u == 0:
            its.append(x(y for y in s))
        else:
            pull(u)
    its.append(x(y for y in s))
    n = len(s.inds)
    for _ in range(len(its) + 1):
        if len(s.inds) == n:
            pull(len(its))
    pull(len(its))
    return dict(evs=evs, uses=len(its), was=s.was, now=[s.state(y) for y in s.inds])


def rate(op, p, n):
    s = Source("array")
    x = make(op, False, p, 1)
    it = x(s)
    hits = 0
    for _ in range(n):
        a, b = next(it), next(it)
        hits += a.fitness is None and b.fitness is None
    return dict(hits=hits)


for k, g in enumerate(R.gen() + R.gen(1)):
    if "inter" in g:
        pn, pd = [(1, 1), (1, 2), (0, 1)][(k // 2) % 3]
        op = ["uniform", "nary"][k % 2]
        R.case("inter", inter, g["inter"], g["persist"], op, pn / pd, k, persist=g["persist"], pn=pn, pd=pd, op=op)
        continue
    for op in (("uniform", "nary") if R.thorough else (["uniform", "nary"][k % 2],)):
        pn, pd = [(1, 1), (1, 2), (0, 1)][(k // 2) % 3]
        R.case("uses", uses, g["uses"], g["persist"], op, pn / pd, k, persist=g["persist"], pn=pn, pd=pd, op=op)
for k in range(200 if R.thorough else 30):      # long lives: many uses, many pulls
    op, persist = ["uniform", "nary"][k % 2], R.rng.random() < .5
    pn, pd = [(1, 1), (1, 2), (0, 1)][(k // 2) % 3]
    seq = [R.rng.choice([0, 1, 1, 2, 3, 5, 8, 13]) for _ in range(R.rng.choice([12, 30]))] if k % 3 else [61, 40, 1, 33]
    R.case("uses", uses, seq, persist, op, pn / pd, k, persist=persist, pn=pn, pd=pd, op=op)
for k in range(200 if R.thorough else 30):
    op, persist = ["uniform", "nary"][k % 2], k % 4 < 2
    pn, pd = [(1, 1), (1, 2), (0, 1)][(k // 2) % 3]
    sched, m = [0, 0], 2
    for _ in range(R.rng.choice([10, 25])):
        sched.append(0 if R.rng.random() < .1 else R.rng.randint(1, m))
        m += sched[-1] == 0
    R.case("inter", inter, sched, persist, op, pn / pd, k, persist=persist, pn=pn, pd=pd, op=op)
for op in ("uniform", "nary"):
    for pn, pd in ((1, 4), (1, 2), (9, 10), (0, 1), (1, 1)):
        R.case("rate", rate, op, pn / pd, 3000, n=3000, pn=pn, pd=pd, op=op)
    for pn, pd in ((1, 20), (3, 20), (19, 20)):
        R.case("rare", rate, op, pn / pd, 22000, n=22000, pn=pn, pd=pd, op=op)
R.close()
