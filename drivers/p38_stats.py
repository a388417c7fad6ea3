import warnings
import drv
import numpy as np
from leap_ec import statistical_helpers as sh
warnings.simplefilter("ignore")
np.seterr(all="ignore")
R = drv.Rec()
rr = R.rng
PS = [("p50", .05), ("p10", .01), ("p01", .001)]


def table(c, names, drop):
    d = {n: v for n, v in zip(names, c) if v or not drop}
    ks = list(d)
    rr.shuffle(ks)
    return {k: d[k] for k in ks}


def equal(o, e, style):
    names = [list(range(len(o))), list("abcdefgh")[:len(o)], [(k, k) for k in range(len(o))]][style % 3]
    drop = style % 2 == 0
    got = [bool(sh.stochastic_equals(table(e, names, drop), table(o, names, drop), p)) for _, p in PS]
    pv = 1000
    if o == e and len(o) > 1:
        pv = int(round(1000 * float(sh.stochastic_chisquare(table(e, names, drop), table(o, names, drop)))))
    return dict(got=got, pv=pv)


def uniform(o, style):
    names = [list(range(len(o))), list("abcdefgh")[:len(o)]][style % 2]
    return dict(got=[bool(sh.equals_uniform(table(o, names, False), p)) for _, p in PS])


def totals(o, e):
    return dict(refused=drv.raises(sh.stochastic_chisquare, dict(enumerate(e)), dict(enumerate(o))) != "")


def collect(seq):
    it = iter(seq)
    n = [0]

    def f():
        n[0] += 1
        return next(it)
    d = sh.collect_distribution(f, len(seq))
    return dict(got=[[k, v] for k, v in d.items()], calls=n[0])


def gauss(n, mu, sd, ref, rsd, m, p):
    xs = np.array([mu - sd, mu + sd] * (n // 2))
    return dict(got=bool(sh.equals_gaussian(xs, ref, rsd, m, p)))


for j, g in enumerate(R.gen()):
    R.case("equal", equal, g["o"], g["e"], j, o=g["o"], e=g["e"], ps=[n for n, _ in PS])
    if j % 6 == 0:
        R.case("uniform", uniform, g["o"], j, o=g["o"], ps=[n for n, _ in PS])
for j in range(300):
    k = rr.randint(2, 7)
    e = [rr.randint(1, 40) for _ in range(k)]
    o = list(e)
    for _ in range(rr.randint(0, 4)):
        a, b = rr.sample(range(k), 2)
        t = rr.randint(0, o[a])
        o[a] -= t
        o[b] += t
    R.case("equal", equal, o, e, j, o=o, e=e, ps=[n for n, _ in PS])
    if sum(o):
        R.case("uniform", uniform, o, j, o=o, ps=[n for n, _ in PS])
    if j < 30:
        R.case("totals", totals, [x + (q == 0) for q, x in enumerate(o)], e)
    s = [rr.randint(0, 3 if j % 5 else 20) for _ in range(rr.randint(0, 12 if j % 5 else 200))]
    R.case("collect", collect, s, seq=s)
    for nm, p in PS:
        n, m, d = rr.choice([12, 20, 50, 100]), rr.choice([12, 30, 60, 100]), rr.randint(-14, 14)
        mu, sd, rsd = rr.randint(-3, 3), rr.randint(1, 2), rr.randint(1, 2)
        R.case("gauss", gauss, n, mu + d / 10, sd, mu, rsd, m, p, n=n, m=m, diff=d, sd=sd, rsd=rsd, p=nm)
for a, b in ((5, 5), (5, 7), (7, 5), (1, 0)):
    R.case("equal", equal, [a], [b], 1, o=[a], e=[b], ps=[n for n, _ in PS])
for j in range(2000 if R.thorough else 300):      # totals that a number of categories does not divide
    o = [rr.randint(0, 40) for _ in range(rr.randint(2, 7))]
    if sum(o):
        R.case("uniform", uniform, o, j, o=o, ps=[n for n, _ in PS])
R.close()
