import math
import drv, mk
from leap_ec import ops
R = drv.Rec()
N = 3000


def stream(make, pop, n, idx, at):
    hits, strangers, bad = [0] * len(pop), 0, 0
    it = make(pop, idx)
    for _ in range(n):
        p = at.get(id(next(it)), 0)
        if p == 0:
            strangers += 1
        else:
            hits[p - 1] += 1
        if idx is not None and idx != [p - 1]:
            bad += 1
    return dict(hits=hits, strangers=strangers, badidx=bad, popafter=[at.get(id(x), 0) for x in pop])


def tournament(vals, mx, k, worst, key, useidx, j, n):
    score = None
    if key:
        score = vals
        P = mk.pop_of([(v * 3 + 1) % 4 for v in vals], mx, score=score)
    else:
        P = mk.pop_of(vals, mx, mk.CONVS[j % 3])
    at = mk.where(P)
    kw = {}
    if k != 2 or j % 2:
        kw["k"] = k
    if worst:
        kw["select_worst"] = True
    if key:
        kw["key"] = lambda x: x.score
    return stream(lambda pop, idx: ops.tournament_selection(pop, indices=idx, **kw) if idx is not None else ops.tournament_selection(**kw)(pop), P, n, [] if useidx else None, at)


for j, g in enumerate(R.gen()):
    vals, mx, k = g["pop"], g["max"], g["k"]
    key = j % 3 == 0
    if key:
        vals, mx_ = [3 if v == drv.NAN else v for v in vals], True
    else:
        mx_ = mx
    worst = (j // 2) % 2 == 1
    R.case("tournament", tournament, vals, mx, k, worst, key, j % 5 < 3, j, N, pop=vals, max=mx_, k=k, worst=worst, n=N, key=key)


for j in range(60 if R.thorough else 24):     # larger populations and tournaments
    size, k = R.rng.choice([(20, 2), (35, 3), (60, 2), (12, 4), (9, 5), (2, 15), (1, 40), (300, 2), (40, 1)])
    vals = [drv.NAN if R.rng.random() < .1 else R.rng.randint(-3, R.rng.choice([3, 60])) for _ in range(size)]
    mx, key = R.rng.random() < .5, j % 4 == 0
    if key:
        vals = [3 if v == drv.NAN else v for v in vals]
    worst = j % 2 == 1
    R.case("tournament", tournament, vals, mx, k, worst, key, j % 5 < 3, j, N, pop=vals, max=True if key else mx, k=k, worst=worst, n=N, key=key)


for j in range(40 if R.thorough else 16):     # so many contestants that the best (worst) of all is always among them
    size, k = R.rng.choice([(2, 60), (3, 100), (5, 250), (4, 160), (9, 500)])
    vals = [R.rng.randint(-3, 9) for _ in range(size)]
    mx, key, worst = R.rng.random() < .5, j % 4 == 0, (j // 2) % 2 == 1
    R.case("surewin", tournament, vals, mx, k, worst, key, j % 5 < 3, j, 40, pop=vals, max=True if key else mx, k=k, worst=worst, n=40, key=key)


for j in range(24 if R.thorough else 8):     # as many contestants as members, drawn with replacement: the best is not always among them
    size = R.rng.choice([6, 10, 15, 30])
    vals = R.rng.sample(range(100), size)
    mx, key, worst = R.rng.random() < .5, j % 4 == 0, (j // 2) % 2 == 1
    R.case("upset", tournament, vals, mx, size, worst, key, j % 5 < 3, j, 2000, pop=vals, max=True if key else mx, k=size, worst=worst, n=2000, key=key)


def rnd(n_, useidx, n):
    P = mk.pop_of([j % 3 for j in range(n_)])
    return stream(lambda pop, idx: ops.random_selection(pop, indices=idx) if idx is not None else ops.random_selection(pop), P, n, [7, 8] if useidx else None, mk.where(P))


for n_ in (1, 2, 3, 5, 7, 40, 90):
    for u in (True, False):
        R.case("random", rnd, n_, u, N, pop=[0] * n_, n=N)


def cyc(naive, n_, pulls, useidx):
    P = mk.pop_of([j % 2 for j in range(n_)])
    at = mk.where(P)
    idx = [] if useidx else None
    it = (ops.naive_cyclic_selection(P, indices=idx) if useidx else ops.naive_cyclic_selection(P)) if naive else ops.cyclic_selection(P)
    out, ii = [], []
    for _ in range(pulls):
        out.append(at.get(id(next(it)), 0))
        if useidx:
            ii.append(list(idx))
    return dict(out=out, idx=ii, popafter=[at.get(id(x), 0) for x in P])


for n_ in range(1, 8):
    for pulls in sorted({1, n_ - 1 or 1, n_, n_ + 1, 2 * n_, 3 * n_ + 1, 5 * n_ + 2}):
        for u in (True, False):
            R.case("naive-cyclic", cyc, True, n_, pulls, u, pop=[0] * n_, useidx=u)
        R.case("cyclic", cyc, False, n_, pulls, False, pop=[0] * n_, useidx=False)


for n_ in (15, 40, 101, 600):
    for pulls in (n_ * 2 + 3, n_ * 4):
        R.case("naive-cyclic", cyc, True, n_, pulls, n_ != 40, pop=[0] * n_, useidx=n_ != 40)
        R.case("cyclic", cyc, False, n_, pulls, False, pop=[0] * n_, useidx=False)


def orders(n_, tour):
    seen, same, other = set(), 0, 0
    for _ in range(800):
        P = mk.pop_of([0] * n_)
        at = mk.where(P)
        out = [at.get(id(x), 0) for x in mk.pull(ops.cyclic_selection(P), n_ * tour)]
        seen.add(tuple(out[-n_:]))
        # every tour is shuffled afresh: over many streams it neither always repeats the tour before it nor never does
        if out[-n_:] == out[-2 * n_:-n_]:
            same += 1
        else:
            other += 1
    return dict(orders=[list(s) for s in sorted(seen)], same=same, other=other)


for n_ in (2, 3, 4):
    for tour in (2, 3):
        R.case("cyclic-orders", orders, n_, tour, pop=[0] * n_, fact=math.factorial(n_))
R.close()
