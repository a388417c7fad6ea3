import drv, mk
import numpy as np
from leap_ec import ops
R = drv.Rec()


def build(vals, key, j):
    if key:
        P = mk.pop_of([(v * 3 + 1) % 4 for v in vals], score=vals)
        return P, dict(key=lambda x: x.score)
    return mk.pop_of(vals, conv=[int, float, np.float64][j % 3]), {}


def kw_of(offset, popmin, expo, j):
    kw = {}
    if popmin:
        kw["offset"] = "pop-min"
    elif offset or j % 2:
        kw["offset"] = offset
    if expo != 1 or j % 3:
        kw["exponent"] = expo
    return kw


def prop(vals, offset, popmin, expo, key, j, n):
    P, kw = build(vals, key, j)
    at = mk.where(P)
    it = ops.proportional_selection(P, **kw, **kw_of(offset, popmin, expo, j)) if j % 4 else ops.proportional_selection(**kw, **kw_of(offset, popmin, expo, j))(P) if (kw or kw_of(offset, popmin, expo, j)) else ops.proportional_selection(P)
    hits, strangers = [0] * len(P), 0
    for _ in range(n):
        p = at.get(id(next(it)), 0)
        if p:
            hits[p - 1] += 1
        else:
            strangers += 1
    return dict(hits=hits, strangers=strangers, popafter=[at.get(id(x), 0) for x in P])


def sus(vals, n, offset, popmin, expo, key, shuffle, j, passes):
    P, kw = build(vals, key, j)
    at = mk.where(P)
    kw.update(kw_of(offset, popmin, expo, j))
    if n != len(P) or j % 2:
        kw["n"] = n
    if not shuffle or j % 5 == 0:
        kw["shuffle"] = shuffle
    it = ops.sus_selection(P, **kw)
    out = [[at.get(id(next(it)), 0) for _ in range(n)] for _ in range(passes)]
    return dict(passes=out, popafter=[at.get(id(x), 0) for x in P])


def susmean(vals, n, offset, popmin, expo, shuffled, j, m):
    P, kw = build(vals, False, j)
    at = mk.where(P)
    kw.update(kw_of(offset, popmin, expo, j))
    hits = [0] * len(P)
    it = ops.sus_selection(P, n=n, **kw)
    for _ in range(m):
        if not shuffled:
            it = ops.sus_selection(P, n=n, shuffle=False, **kw)
        for _ in range(n):
            p = at.get(id(next(it)), 0)
            if p:
                hits[p - 1] += 1
    return dict(hits=hits)


def total(vals, offset, popmin, expo):
    o = -min(vals) if popmin else offset
    sh = [(v + o) ** expo for v in vals]
    return None if any(v + o < 0 for v in vals) else sum(sh)


CONF = [(0, False, 1), (2, False, 1), (0, True, 1), (0, False, 2), (1, False, 2), (3, True, 2), (0, False, 0), (1, False, 3), (0, True, 3)]
M = 3000
done = set()
for j, g in enumerate(R.gen()):
    vals, n = g["vals"], g["n"]
    off, pm, ex = CONF[j % len(CONF)]
    T = total(vals, off, pm, ex)
    if not T:
        continue
    st = dict(vals=vals, offset=off, popmin=pm, expo=ex)
    key = j % 4 == 1
    R.case("sus", sus, vals, n, off, pm, ex, key, j % 3 != 0, j, 5, n=n, shuffle=j % 3 != 0, **st)
    if j % (2 if R.thorough else 5) == 0:
        R.case("sus-mean", susmean, vals, n, off, pm, ex, j % 2 == 0, j, 2000, n=n, m=2000, **st)
    if n == 1 + j % 2:
        R.case("proportional", prop, vals, off, pm, ex, key, j, M, n=M, **st)
for j in range(600 if R.thorough else 150):    # larger random populations, negative values with an offset
    vals = [R.rng.randint(-5, 12) for _ in range(R.rng.randint(2, 9))]
    pm = R.rng.random() < .5
    off = 0 if pm else max(0, -min(vals)) + R.rng.randint(0, 2)
    ex = R.rng.choice([1, 1, 2])
    T = total(vals, off, pm, ex)
    if not T:
        continue
    n = R.rng.randint(1, 12)
    R.case("sus", sus, vals, n, off, pm, ex, j % 3 == 0, j % 2 == 0, j, 4, n=n, shuffle=j % 2 == 0, vals=vals, offset=off, popmin=pm, expo=ex)


for j in range(200 if R.thorough else 40):    # large populations, many points, long streams of passes
    vals = [R.rng.randint(0, 30) if R.rng.random() < .8 else 0 for _ in range(R.rng.choice([20, 33, 60]))]
    pm, ex = R.rng.random() < .3, R.rng.choice([1, 1, 2])
    off = 0 if pm else R.rng.choice([0, 1])
    if pm:      # one least value
        vals = [v + 9 for v in vals]
        vals[R.rng.randrange(len(vals))] = R.rng.randint(-3, 5)
    if not total(vals, off, pm, ex):
        continue
    n = R.rng.choice([1, 7, len(vals), len(vals), 80])
    R.case("sus", sus, vals, n, off, pm, ex, j % 3 == 0, j % 2 == 0, j, R.rng.choice([2, 12]), n=n, shuffle=j % 2 == 0, vals=vals, offset=off, popmin=pm, expo=ex)
    if j % 4 == 0 and not pm and ex == 1:
        R.case("proportional", prop, vals, off, pm, ex, j % 8 == 0, j, 8000, n=8000, vals=vals, offset=off, popmin=pm, expo=ex)


def scaled(what, vals, scale, n, expo, popmin, j, m):
    """The shares of whole numbers times a common scale are those of the numbers themselves."""
    big = [v * scale for v in vals]
    if what == "sus":
        return sus(big, n, 0, popmin, expo, j % 2 == 0, False, j, m)
    return prop(big, 0, popmin, expo, False, 3 * j, m)     # plain ints


for j in range(60 if R.thorough else 24):    # powers of large whole numbers
    ex = R.rng.choice([4, 6, 10])
    vals = [R.rng.randint(0, {4: 4, 6: 3, 10: 2}[ex]) for _ in range(R.rng.randint(2, 5))]
    pm, scale = j % 3 == 0, R.rng.choice([1, 100, 3000, 70000])
    if not total(vals, 0, pm, ex):
        continue
    n = R.rng.randint(1, 9)
    R.case("sus", scaled, "sus", vals, scale, n, ex, pm, j, 4, n=n, shuffle=False, vals=vals, offset=0, popmin=pm, expo=ex)
    if j % 4 == 0:
        R.case("proportional", scaled, "prop", vals, scale, 0, ex, pm, j, M, n=M, vals=vals, offset=0, popmin=pm, expo=ex)


def rejected(f):
    return dict(error=drv.raises(f))


for vals, off, ex in [([-1, 2], 0, 1), ([0, 5], -1, 1), ([3, -4, 2], 2, 1), ([-1, 3], 0, 3), ([1, 2, -9], 8, 1), ([1, -1e-9, 2], 0, 1), ([1, -1e-9, 2], 0, 2), ([4, 1], -1 - 1e-12, 1)]:
    R.case("rejected", rejected, lambda: next(ops.proportional_selection(mk.pop_of(vals), offset=off, exponent=ex)), what="negative-proportional", vals=vals)
    R.case("rejected", rejected, lambda: next(ops.sus_selection(mk.pop_of(vals), offset=off, exponent=ex)), what="negative-sus", vals=vals)
for n in (0, -1, -5):
    R.case("rejected", rejected, lambda: next(ops.sus_selection(mk.pop_of([1, 2]), n=n)), what="points", n=n)
R.close()
