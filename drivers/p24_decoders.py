import math
from fractions import Fraction
import drv
import numpy as np
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.binary_rep.decoders import BinaryToIntDecoder, BinaryToIntGreyDecoder, BinaryToRealDecoder, BinaryToRealGreyDecoder
from leap_ec.segmented_rep.decoders import SegmentedDecoder
R = drv.Rec()
rr = R.rng
INT = dict(binary=BinaryToIntDecoder, gray=BinaryToIntGreyDecoder)
REAL = dict(binary=BinaryToRealDecoder, gray=BinaryToRealGreyDecoder)
DT = [int, np.int8, np.uint8, bool, np.int32]


def bits(v, n):
    try:
        w = int(v)
        if w != v or w < 0 or w >= 2 ** n:
            return [drv.BADT]
    except Exception:
        return [drv.BADT]
    return [(w >> (n - 1 - k)) & 1 for k in range(n)]


def enc(out, lens):
    out = list(out)
    return [bits(v, n) for v, n in zip(out, lens)] if len(out) == len(lens) else [[drv.BADT]]


def fx(v):
    f = float(v)
    return int(round(f * 1000)) if math.isfinite(f) and abs(f) < 1e6 else drv.BADT


def run(dec, genomes, style, e):
    G = [np.array(g, dtype=DT[style % len(DT)]) for g in genomes]
    if style % 3 == 1:      # through an individual
        I = [Individual(g, dec) for g in G]
        call = lambda k: I[k].decode()
    else:
        call = lambda k: dec.decode(G[k])
    keep = [call(k) for k in range(len(G))]
    outs = [e(o) for o in keep]
    order = list(range(len(G)))
    rr.shuffle(order)
    again = [None] * len(G)
    for k in order:
        again[k] = e(call(k))
    return dict(outs=outs, again=again, late=[e(o) for o in keep], same=all(g.tolist() == np.array(h, dtype=DT[style % len(DT)]).tolist() for g, h in zip(G, genomes)))


def ints(lens, genomes, code, style):
    return run(INT[code](*lens), genomes, style, lambda o: enc(o, lens))


def reals(lens, genomes, code, style, lo, hi):
    segs = [(n, a / 1000, b / 1000) if (a % 1000 or b % 1000 or style % 2) else (n, a // 1000, b // 1000) for n, a, b in zip(lens, lo, hi)]
    return run(REAL[code](*segs), genomes, style, lambda o: [fx(v) for v in o])


def steps(lens, genomes, code, style, lo, hi):
    """which step of its range every real value sits on, and how far off it in parts of 10^12 of the range"""
    F = [(Fraction(float(a)), Fraction(float(b))) for a, b in zip(lo, hi)]

    def e(out):
        out, r = list(out), []
        if len(out) != len(lens):
            return [dict(at=[drv.BADT], off=0)]
        for v, n, (a, b) in zip(out, lens, F):
            if not math.isfinite(v):
                r.append(dict(at=[drv.BADT], off=0))
                continue
            x = (Fraction(float(v)) - a) / (b - a)
            s = round(x * (2 ** n - 1))
            off = (x - Fraction(s, 2 ** n - 1)) * 10 ** 12
            r.append(dict(at=bits(s, n), off=int(max(-10 ** 6, min(10 ** 6, round(off))))))
        return r
    return run(REAL[code](*zip(lens, lo, hi)), genomes, style, e)


def segmented(lens, genomes, code, style):
    G = [np.array(g) for g in genomes]
    dec = SegmentedDecoder(INT[code](*lens))
    o = (Individual(G, dec).decode() if style % 2 else dec.decode(G))
    return dict(outs=[enc(v, lens) for v in o], same=[g.tolist() for g in G] == genomes)


def identity():
    g = np.array([1, 2])
    l = [3, 4]
    return dict(identical=IdentityDecoder().decode(g) is g and g.tolist() == [1, 2] and IdentityDecoder().decode(l) == [3, 4])


k = 0
for c in R.gen():
    lens, gs = c["lens"], c["genomes"]
    for code in ("binary", "gray"):
        k += 1
        R.case("ints", ints, lens, gs, code, k, lens=lens, genomes=gs, code=code)
        lo = [rr.choice([-5120, 0, -1000, 3000, 250, -20000]) for _ in lens]
        hi = [a + rr.choice([1000, 10240, 7000, 500, 30000]) for a in lo]
        if k % 3 == 0:
            lo = [(a // 1000) * 1000 for a in lo]
            hi = [a + rr.choice([1000, 15000, 7000, 2000]) for a in lo]
        R.case("reals", reals, lens, gs, code, k, lo, hi, lens=lens, genomes=gs, code=code, lo=lo, hi=hi)
        m = rr.sample(gs, min(len(gs), rr.randint(0, 4)))
        R.case("segmented", segmented, lens, m, code, k, lens=lens, genomes=m, code=code)
for _ in range(400 if R.thorough else 60):      # long segments, mixed lengths in every order
    lens = [rr.choice([1, 2, 5, 8, 13, 31, 32, 33, 40, 62]) for _ in range(rr.randint(1, 4))]
    gs = [[rr.randint(0, 1) for _ in range(sum(lens))] for _ in range(6)] + [[1] * sum(lens), [0] * sum(lens)]
    for code in ("binary", "gray"):
        k += 1
        R.case("ints", ints, lens, gs, code, k, lens=lens, genomes=gs, code=code)
for _ in range(200 if R.thorough else 30):      # long genomes of many segments
    lens = [rr.choice([1, 3, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 50]) for _ in range(rr.choice([1, 2, 6, 15, 40]))]
    gs = [[rr.randint(0, 1) for _ in range(sum(lens))] for _ in range(3)] + [[1] * sum(lens), [0] * sum(lens), [1 - b % 2 for b in range(sum(lens))]]
    lo = [rr.choice([-5120, 0, -1000, 3000, 250, -20000]) for _ in lens]
    hi = [a + rr.choice([1000, 10240, 7000, 500, 30000]) for a in lo]
    for code in ("binary", "gray"):
        k += 1
        R.case("ints", ints, lens, gs, code, k, lens=lens, genomes=gs, code=code)
        R.case("reals", reals, lens, gs, code, k, lo, hi, lens=lens, genomes=gs, code=code, lo=lo, hi=hi)
        m = [[rr.randint(0, 1) for _ in range(sum(lens))] for _ in range(rr.randint(5, 20))]
        R.case("segmented", segmented, lens, m, code, k, lens=lens, genomes=m, code=code)
for j in range(300 if R.thorough else 60):      # every value on its very step, in any range
    lens = [rr.choice([1, 2, 4, 7, 12, 20, 30]) for _ in range(rr.choice([1, 2, 6]))]
    gs = [[rr.randint(0, 1) for _ in range(sum(lens))] for _ in range(5)] + [[1] * sum(lens), [0] * sum(lens)]
    unit = rr.choice([1, 1, 1e-6, 1e7])
    lo = [unit * rr.choice([-5.12, 0, .1, -1 / 3, 2.7, -20]) for _ in lens]
    hi = [a + unit * rr.choice([1, 10.24, .3, 7.7]) for a in lo]
    for code in ("binary", "gray"):
        R.case("steps", steps, lens, gs, code, j, lo, hi, lens=lens, genomes=gs, code=code)
R.case("identity", identity)
for bad in (lambda: BinaryToIntDecoder(2).decode([0, 1]), lambda: BinaryToIntGreyDecoder(2).decode([0, 1]), lambda: BinaryToRealDecoder((2, 0)), lambda: BinaryToRealGreyDecoder((2, 0, 1, 3))):
    R.case("misuse", lambda bad=bad: dict(err=drv.raises(bad)))
R.close()
