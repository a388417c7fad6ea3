import csv, io, json, math
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import drv, mk
import numpy as np
from leap_ec import probe, ops
from leap_ec.global_vars import context as gctx
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.distrib import probe as dprobe
from leap_ec.multiobjective.probe import ParetoPlotProbe2D
from leap_ec.problem import FunctionProblem, ScalarProblem
plt.pause = lambda *a, **k: None
R = drv.Rec()
rr = R.rng


def build(pops, mx, glen=2, boundary=int):
    out, gs, foo, bar = [], [], [], []
    for vals in pops:
        p = mk.pop_of(vals, mx, boundary)
        for x in p:
            x.genome = np.array([rr.randint(0, 3) for _ in range(glen)])
            x.foo, x.bar = rr.randint(0, 9), [rr.randint(0, 9), rr.randint(0, 9)]
        out.append(p)
    return out


def snap(pops):
    return [[(id(x), repr(x.fitness), np.asarray(x.genome).tolist(), str(x.uuid), sorted(k for k in x.__dict__)) for x in p] for p in pops]


def guard(pops, f):
    """Run f(pop) over the history; was the same list content handed on, and nothing changed?"""
    before, npstr = snap(pops), str(np.array([1, 0]))
    lists = [list(p) for p in pops]
    handed = True
    for k, p in enumerate(lists):
        out = f(k, p)
        handed &= len(out) == len(pops[k]) and all(a is b for a, b in zip(out, pops[k]))
        handed &= len(p) == len(pops[k]) and all(a is b for a, b in zip(p, pops[k]))
    return dict(handed=handed, untouched=snap(pops) == before and str(np.array([1, 0])) == npstr)


def fl(s):
    try:
        return drv.num(float(s))
    except ValueError:
        return drv.BADT


def fx(s, scale=100, top=10000):
    try:
        v = float(s)
        if math.isnan(v):
            return drv.NAN
        return int(round(v * scale)) if math.isfinite(v) and abs(v) < top else drv.BADT
    except ValueError:
        return drv.BADT


def ctxs(style):
    mine = {"leap": {"generation": -5}}
    if style % 2:
        gctx["leap"]["generation"] = 77
        return mine, dict(context=mine)
    return gctx, {}


def bsf(pops, mx, gens, hdr, style):
    P = build(pops, mx, boundary=mk.CONVS[style % 3])
    c, kw = ctxs(style)
    s = io.StringIO()
    pr = probe.BestSoFarProbe(stream=s, header=hdr, **kw)

    def f(k, p):
        c["leap"]["generation"] = gens[k]
        return pr(p)
    o = guard(P, f)
    rows = list(csv.reader(io.StringIO(s.getvalue())))
    h, body = (rows[0], rows[1:]) if hdr else ([], rows)
    return dict(o, pops=pops, gens=gens, header=h, wantheader=["step", "bsf"] if hdr else [], rows=[dict(step=fl(r[0]), bsf=fl(r[1])) for r in body])


def bsf_iter(fits, mx, gens, restart, style, hdr=None):
    P = build([fits], mx, boundary=mk.CONVS[style % 3])[0]
    c, kw = ctxs(style)
    s = io.StringIO()
    hdr = bool(style % 3)
    pr = probe.BestSoFarIterProbe(stream=s, **({} if hdr and style % 2 else dict(header=hdr)), **kw)
    before, out = snap([P]), []
    it = pr(iter(P))
    for k in range(len(P)):
        if restart and k == restart:
            it = pr(iter(P[k:]))          # the same probe in the next generation's pipeline
        c["leap"]["generation"] = gens[k]
        out.append(next(it))
    rows = list(csv.reader(io.StringIO(s.getvalue())))
    h, rows = (rows[:1], rows[1:]) if hdr else ([], rows)
    return dict(handed=len(out) == len(P) and all(a is b for a, b in zip(out, P)), untouched=snap([P]) == before, header=h, wantheader=[['step', 'bsf']] if hdr else [], fits=fits, gens=gens, rows=[dict(step=fl(r[0]), bsf=fl(r[1])) for r in rows])


def stats(pops, mx, gens, modulo, hdr, job, notes, extras, comment, style):
    P = build(pops, mx, boundary=mk.CONVS[style % 3])
    c, kw = ctxs(style)
    s = io.StringIO()
    M = {"n": len, "first": lambda p: int(p[0].fitness)}
    pr = probe.FitnessStatsCSVProbe(stream=s, header=hdr, **mod(modulo), job=job, notes={n: f"v-{n}" for n in notes} or None, extra_metrics={m: M[m] for m in extras} or None, comment=comment, **kw)

    def f(k, p):
        c["leap"]["generation"] = gens[k]
        return pr(p)
    o = guard(P, f)
    lines = s.getvalue().split("\n")
    assert lines[-1] == ""
    lines = lines[:-1]
    com = [l for l in lines if l.startswith("#")]
    lines = [[x.strip() for x in l.split(",")] for l in lines if not l.startswith("#")]
    h, body = (lines[0], lines[1:]) if hdr else ([], lines)
    nl = (1 if job is not None else 0) + len(notes)
    want = (["job"] if job is not None else []) + notes + ["step", "bsf", "mean_fitness", "std_fitness", "min_fitness", "max_fitness"] + extras
    rows = []
    for r in body:
        r = r + [""] * 20 if len(r) < nl + 6 else r
        rows.append(dict(lead=r[:nl], step=fl(r[nl]), bsf=fl(r[nl + 1]), mean=fx(r[nl + 2]), std=fx(r[nl + 3]), min=fl(r[nl + 4]), max=fl(r[nl + 5]), trail=r[nl + 6:]))
    return dict(o, pops=pops, gens=gens, rows=rows, header=h, wantheader=want if hdr else [], comments=com, wantcomments=["# " + l for l in comment.split("\n")] if comment and hdr else [],
                wantlead=([str(job)] if job is not None else []) + [f"v-{n}" for n in notes])


def cell(v):
    if isinstance(v, str):
        t = v.strip()
        if t.startswith("["):
            try:
                v = json.loads(t)
            except ValueError:
                return v
        else:
            try:
                v = float(t)
            except ValueError:
                return v
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(cell(x) for x in v) + ">>"
    try:
        f = float(v)
    except Exception:
        return repr(v)
    if math.isnan(f):
        return str(drv.NAN)
    return str(int(f)) if f == math.floor(f) and math.isfinite(f) else repr(f)


def attrs(pops, mx, gens, at, best, dofit, dogen, job, notes, extras, hdr, df, nostream, style):
    P = build(pops, mx, glen=1 + style % 3)
    if style % 4 == 3:
        for p in P:
            for x in p:
                x.genome = list(x.genome.tolist())
    c, kw = ctxs(style)
    s = None if nostream else io.StringIO()
    M = {"twice": lambda row: 2 * row["step"], "cnt": lambda row: 7}
    opt = dict(do_dataframe=df, best_only=best, do_fitness=dofit, do_genome=dogen)
    opt = {n: v for n, v in opt.items() if v or style % 2}           # left out where the value is the default
    pr = probe.AttributesCSVProbe(attributes=at, stream=s, **opt, **(dict(header=hdr) if not hdr or style % 3 else {}),
                                  notes={n: f"note-{n}" for n in notes} or None, extra_metrics={m: M[m] for m in extras} or None, job=job, **kw)

    def f(k, p):
        c["leap"]["generation"] = gens[k]
        return pr(p)
    o = guard(P, f)
    rows = list(csv.reader(io.StringIO(s.getvalue()))) if s else []
    h, body = (rows[0], rows[1:]) if hdr and s else ([], rows)
    D = pr.dataframe if df else None
    return dict(o, pops=pops, gens=gens, genomes=[[np.asarray(x.genome).tolist() for x in p] for p in P], foo=[[x.foo for x in p] for p in P], bar=[[x.bar for x in p] for p in P],
                job=["job"] if job is not None else [], jobval=str(job), notes=notes, attrs=at, fitcol=["fitness"] if dofit else [], gencol=["genome"] if dogen else [], extras=extras,
                hdr=hdr and not nostream, nostream=nostream, header=h, rows=[[cell(v) for v in r] for r in body], df=df,
                dfcols=list(D.columns) if df else [], dfrows=[[cell(v) for v in r] for r in D.values.tolist()] if df else [])


def misuse(which):
    P = build([[1, 2]], True)[0]
    c = {"leap": {"generation": 0}}
    if which == "attr":
        return dict(err=drv.raises(lambda: probe.AttributesCSVProbe(attributes=["nope"], stream=io.StringIO(), context=c)(P)))
    if which == "nothing":
        return dict(err=drv.raises(lambda: probe.AttributesCSVProbe(attributes=["foo"], stream=None, context=c)))
    return dict(err=drv.raises(lambda: probe.AttributesCSVProbe(attributes=["foo"], stream=io.StringIO(), context=c).dataframe))


def metrics(gs, unit=1):
    """Genomes in steps of 1 / unit: distances and variances shrink with its square, fixation does not."""
    P = [Individual(np.array(g) / unit if unit > 1 else np.array(g)) for g in gs]
    return dict(gs=gs, pair=fx(probe.pairwise_squared_distance_metric(P), 10 * unit * unit, 10**7), fix=drv.num(probe.num_fixated_metric(P)), var=fx(probe.sum_of_variances_metric(P), 100 * unit * unit))


class Other:
    """A decoder under which the phenome differs from the genome."""
    def decode(self, genome, *a, **k):
        return np.asarray(genome)[::-1] * 2 + 1


def exact(vals, style):
    """Published numbers are the exact ones: no digit is dropped."""
    P = mk.pop_of([0] * len(vals), True)
    for x, v in zip(P, vals):
        x.fitness, x.genome, x.foo = v, np.array([v, -v / 3, v * 1e-9]), v / 7
    c = {"leap": {"generation": 3}}
    s1, s2, s3 = io.StringIO(), io.StringIO(), io.StringIO()
    probe.FitnessStatsCSVProbe(stream=s1, header=False, context=c)(P)
    pa = probe.AttributesCSVProbe(attributes=["foo"], stream=s2, header=False, do_fitness=True, do_genome=True, do_dataframe=True, context=c)
    pa(P)
    probe.BestSoFarProbe(stream=s3, header=False, context=c)(P)
    row = [float(t) for t in s1.getvalue().split(",")]
    rows = list(csv.reader(io.StringIO(s2.getvalue())))
    F = lambda t: [float(u) for u in t.strip("[]").replace(",", " ").split()]
    D = pa.dataframe
    return dict(stats=row[1] == max(vals) and row[4] == min(vals) and row[5] == max(vals) and math.isclose(row[2], sum(vals) / len(vals), rel_tol=1e-9, abs_tol=1e-12),
                attrs=all(float(r[1]) == x.foo and float(r[2]) == x.fitness and F(r[3]) == x.genome.tolist() for r, x in zip(rows, P)) and len(rows) == len(P),
                frame=all(float(a) == x.foo and float(b) == x.fitness and np.array_equal(np.asarray(g, dtype=float), x.genome) for a, b, g, x in zip(D["foo"], D["fitness"], D["genome"], P)),
                best=float(s3.getvalue().split(",")[1]) == max(vals))


def prints(vals, mx, which, prefix, style):
    P = build([vals], mx)
    s = io.StringIO()
    if which == "probe":
        f = (lambda k, p: probe.print_probe(p, probe=len, stream=s, prefix=prefix)) if style else (lambda k, p: probe.print_probe(probe=len, stream=s, prefix=prefix)(p))
        o = guard(P, f)
        return dict(o, text=s.getvalue(), want=prefix + str(len(vals)))

    def g(k, p):
        it = probe.print_individual(prefix=prefix, stream=s)(iter(p)) if style else probe.print_individual(iter(p), prefix=prefix, stream=s)
        return mk.pull(it, len(p))
    o = guard(P, g)
    return dict(o, text=s.getvalue(), want="".join(f"{prefix}{x}\n" for x in P[0]))


def mod(m):
    return {} if m == 1 else dict(modulo=m)


class Flushed(io.StringIO):
    """What a reader of the file sees: only what has been flushed."""
    seen = ""

    def flush(self):
        super().flush()
        self.seen = self.getvalue()


def logs(pops, interval, hdr):
    P = build(pops, True)
    n = 0
    for p in P:
        for x in p:
            n += 1
            x.birth_id, x.start_eval_time, x.stop_eval_time, x.hostname, x.pid = n, 100 + n, 200 + n, f"h{n}", 300 + n
    s = Flushed()
    live = []
    before = snap(P)
    rows, want, body = [], [], []
    if interval:
        pr = dprobe.log_pop(interval, stream=s, header=hdr)
        for p in P:
            pr(p)
            live.append(s.seen == s.getvalue())
        wh = ["interval", "uuid", "birth_id", "start_eval_time", "stop_eval_time", "fitness"]
    else:
        pr = dprobe.log_worker_location(stream=s, header=hdr)
        k = 0
        for p in P:
            for x in p:
                pr(x)
                live.append(s.seen == s.getvalue())
        wh = ["hostname", "pid", "uuid", "birth_id", "start_eval_time", "stop_eval_time", "fitness"]
    rows = list(csv.reader(io.StringIO(s.getvalue())))
    h, body = (rows[0], rows[1:]) if hdr else ([], rows)
    o = dict(untouched=snap(P) == before, header=h, wantheader=wh if hdr else [], pops=pops, live=all(live))
    if interval:
        return dict(o, interval=interval, rows=[r[:5] + [cell(r[5])] for r in body], ids=[[str(x.uuid) for x in p] for p in P], births=[[str(x.birth_id) for x in p] for p in P],
                    starts=[[str(x.start_eval_time) for x in p] for p in P], stops=[[str(x.stop_eval_time) for x in p] for p in P])
    flat = [x for p in P for x in p]
    return dict(o, handed=True, text="|".join(",".join(r) for r in body), want="|".join(",".join(str(v) for v in (x.hostname, x.pid, x.uuid, x.birth_id, x.start_eval_time, x.stop_eval_time, x.fitness)) for x in flat))


def plot(pops, mx, gens, modulo, mets, xval, style):
    P = build(pops, mx)
    c, kw = ctxs(style)
    fig, ax = plt.subplots()
    try:
        if style % 3 == 0:
            mets = ["best"]
        M = {"best": lambda p: probe.best_of_gen(p).fitness, "n": len, "first": lambda p: p[0].fitness}
        cnt = [0]
        if xval == "own":
            kw["x_axis_value"] = lambda: 10 * cnt[0]
        pr = probe.FitnessPlotProbe(ax=ax, **mod(modulo), **kw) if style % 3 == 0 else probe.PopulationMetricsPlotProbe(ax=ax, metrics=[M[m] for m in mets], **mod(modulo), **kw)

        def f(k, p):
            cnt[0] = k + 1
            c["leap"]["generation"] = gens[k]
            return pr(p)
        o = guard(P, f)
        L = ax.lines
        xs = [drv.nums(l.get_xdata()) for l in L]
        return dict(o, pops=pops, gens=gens, x=xs[0] if all(x == xs[0] for x in xs) else [drv.BADT], y=[drv.nums(l.get_ydata()) for l in L], metrics=mets)
    finally:
        plt.close(fig)


def scatter(pops, mx, gens, modulo, which, style):
    P = build(pops, mx)
    for p in P:
        for x in p:
            x.genome = np.array([rr.randint(-9, 9) for _ in range(2 + style % 3)])
            if style // 2 % 2:
                x.decoder = Other()
    c, kw = ctxs(style)
    fig, ax = plt.subplots()
    try:
        pr = (probe.CartesianPhenotypePlotProbe if which == "cart" else probe.SumPhenotypePlotProbe)(ax=ax, **mod(modulo), **kw)

        def f(k, p):
            c["leap"]["generation"] = gens[k]
            return pr(p)
        o = guard(P, f)
        pts = [drv.nums(q) for q in np.asarray(pr.sc.get_offsets()).tolist()]
        ph = lambda x: (x.genome[::-1] * 2 + 1 if style // 2 % 2 else x.genome).tolist()
        want = [[(ph(x)[:2] if which == "cart" else [sum(ph(x)), int(x.fitness)]) for x in p] for p in P]
        (l, r), (b, t) = ax.get_xlim(), ax.get_ylim()
        vis = all(l <= q[0] <= r and b <= q[1] <= t for q in pts)
        return dict(o, pops=pops, gens=gens, pts=pts, want=want, visible=bool(vis))
    finally:
        plt.close(fig)


class Scal(IdentityDecoder):
    def decode(self, genome, *a, **k):
        return float(genome[0])


def hist(pops, mx, gens, modulo, cls, scal, style):
    P = build(pops, mx, glen=1)
    for p in P:
        for x in p:
            x.genome = np.array([rr.randint(-30, 30)])
            if scal:
                x.decoder = Scal()
    c, kw = ctxs(style)
    if style % 3:
        kw["title"] = "mine"
    fig, ax = plt.subplots()
    try:
        pr = cls(ax=ax, **mod(modulo), **kw)
        bars, titles = [], []

        def f(k, p):
            c["leap"]["generation"] = gens[k]
            out = pr(p)
            bars.append([[int(round(q.get_height())) for q in b] for b in [ax.patches]][0])
            titles.append(ax.get_title())
            return out
        o = guard(P, f)
        return dict(o, pops=pops, gens=gens, vals=[[int(x.genome[0]) for x in p] for p in P], bars=bars, total=[sum(b) for b in bars], titles=len(set(titles)) == 1 and (style % 3 == 0 or titles[0] == "mine"), scal=scal)
    finally:
        plt.close(fig)


class Land(ScalarProblem):
    bounds = (-2, 3)

    def __init__(self):
        super().__init__(True)
        self.pts = []

    def evaluate(self, ph):
        self.pts.append([int(round(100 * float(v))) for v in ph])
        return float(np.sum(ph))


def contour(xl, yl, gr, pad, own):
    p = Land()
    fig, ax = plt.subplots()
    try:
        kw = {} if gr is None else dict(granularity=gr / 100)
        if pad:
            kw["pad"] = [v / 100 for v in pad]
        if xl:
            kw["xlim"] = (xl[0] / 100, xl[1] / 100)
        if yl:
            kw["ylim"] = (yl[0] / 100, yl[1] / 100)
        probe.CartesianPhenotypePlotProbe(ax=ax if own else None, contours=p, **kw)
        return dict(seen=sorted({tuple(q) for q in p.pts}))
    finally:
        plt.close("all")


def sumcurve(lo, hi, gr, tgt):
    fig, ax = plt.subplots()
    try:
        prob = FunctionProblem(lambda x: 10 * int(np.sum(x)) + len(x), True)
        probe.SumPhenotypePlotProbe(ax=ax, xlim=(lo, hi), ylim=(0, 1), problem=prob, granularity=gr)
        return dict(x=drv.nums(ax.lines[0].get_xdata()), y=drv.nums(ax.lines[0].get_ydata()))
    finally:
        plt.close(fig)


def pareto(pops, gens, step, own, key, m):
    c = {"leap": {key: 0}}
    fig, ax = plt.subplots()
    try:
        pr = ParetoPlotProbe2D(ax=ax if own else None, step=step, context=c) if step > 1 or own else ParetoPlotProbe2D(context=c)
        handed, pts, lim = True, [], True
        for g, vs in zip(gens, pops):
            P = []
            for v in vs:
                x = Individual(np.array([0]))
                x.fitness = np.array(v, dtype=float)
                P.append(x)
            keep = list(P)
            c["leap"][key] = g
            out = pr(P)
            handed = handed and out is P and len(P) == len(keep) and all(a is b for a, b in zip(P, keep)) and [x.fitness.tolist() for x in P] == [[float(t) for t in v] for v in vs]
            q = np.asarray(pr.scatterplot.get_offsets()).tolist()
            pts.append([drv.nums(t) for t in q])
            (l, r), (b, t) = pr.ax.get_xlim(), pr.ax.get_ylim()
            lim = lim and all(l <= z[0] <= r and b <= z[1] <= t for z in q)
        return dict(handed=handed, untouched=True, pts=pts, visible=bool(lim))
    finally:
        plt.close("all")


cases = R.gen()
N = [0]


def gens_for(k, style):
    g = {0: 0, 1: 1, 2: 3, 3: 0, 4: 0}[style % 5]
    if style % 5 == 3:
        return sorted(rr.sample(range(0, 12), k))
    if style % 5 == 4:
        return [rr.randint(0, 6) for _ in range(k)]
    return list(range(g, g + k))


NOTES = [[], ["a"], ["b", "a"], []]
EXT = [[], ["n"], ["first", "n"], []]
for k, h in enumerate(cases):
    pops, mx = h["pops"], h["max"]
    gens = gens_for(len(pops), k)
    R.case("bsf", bsf, pops, mx, gens, k % 3 > 0, k, max=mx)
    flat = [v for p in pops for v in p]
    R.case("bsf-iter", bsf_iter, flat, mx, gens_for(len(flat), k), rr.randint(0, len(flat) - 1), k, max=mx)
    if drv.NAN not in flat:
        pops2 = [[v * rr.choice([1, 3, -2]) + rr.randint(-2, 2) for v in p] for p in pops]
        R.case("stats", stats, pops2, mx, gens, 1 + k % 4, k % 5 > 0, [None, "j1", 3, 0][k % 4], NOTES[rr.randint(0, 3)], EXT[e := rr.randint(0, 3)], [None, "x", "x\ny", "\nx\n", " x\n\ny "][k % 5], k, max=mx, modulo=1 + k % 4, extras=EXT[e])
    nos = rr.random() < .2
    best = rr.random() < .4
    R.case("attrs", attrs, pops, mx, gens, rr.choice([[], ["foo"], ["bar", "foo"], ["foo", "bar"]]), best, rr.random() < .6, rr.random() < .5, rr.choice([None, 0, "j", 5]), rr.choice(NOTES),
           rr.choice([[], ["twice"], ["cnt", "twice"]]), rr.random() < .7, nos or rr.random() < .3, nos, k, max=mx, best=best)
for k in range(600 if R.thorough else 80):      # longer histories
    mx = rr.random() < .5
    pops = [[rr.randint(-9, 9) for _ in range(rr.randint(1, 5))] for _ in range(rr.randint(1, 8))]
    m = rr.randint(1, 4)
    ex = rr.choice(EXT)
    R.case("stats", stats, pops, mx, gens_for(len(pops), k), m, True, None, [], ex, None, k, max=mx, modulo=m, extras=ex)
    if k % 4 == 0:                              # failed members
        bad = [[drv.NAN if rr.random() < .3 and j > 0 else v for j, v in enumerate(p)] for p in pops]
        R.case("stats", stats, bad, mx, gens_for(len(pops), k), m, True, None, [], ["n"], None, k - k % 3, max=mx, modulo=m, extras=["n"])
    R.case("bsf", bsf, pops, mx, gens_for(len(pops), k), True, k, max=mx)
    gs = [[rr.randint(-3, 3) if rr.random() < .5 else 1 for _ in range(rr.choice([L for L in (1, 2, 3)])) ] for _ in range(1)]
    L = rr.randint(1, 4)
    fixl = [rr.random() < .4 for _ in range(L)]
    gs = [[2 if fixl[l] else rr.randint(-3, 3) for l in range(L)] for _ in range(rr.randint(1, 5))]
    R.case("metrics", metrics, gs, [1, 100][k % 2])
    R.case("exact", exact, [rr.choice([1, -1]) * rr.random() * 10 ** rr.randint(-7, 9) for _ in range(rr.randint(1, 6))], k)
    R.case("print", prints, pops[0], mx, "probe", rr.choice(["", "p:"]), k % 2)
    R.case("print", prints, pops[0], mx, "ind", rr.choice(["", "p:"]), k % 2)
    R.case("logpop", logs, pops, m, k % 3 > 0)
    R.case("print", logs, pops, 0, k % 3 > 0)
    xv = "own" if k % 4 == 0 else "gen"
    if k < (200 if R.thorough else 24):
        R.case("plot", plot, pops, mx, gens_for(len(pops), k), m, rr.choice([["best"], ["n", "first"], ["best", "n"]]), xv, k, max=mx, modulo=m, xval=xv)
        R.case("scatter", scatter, pops, mx, gens_for(len(pops), k), m, ["cart", "sum"][k % 2], k, max=mx, modulo=m)
for k in range(200 if R.thorough else 40):
    mx = rr.random() < .5
    pops = [[rr.randint(-9, 9) for _ in range(rr.randint(1, 7))] for _ in range(rr.randint(1, 5))]
    m = rr.randint(1, 3)
    R.case("hist", hist, pops, mx, gens_for(len(pops), k), m, [probe.HistPhenotypePlotProbe, probe.HeatMapPhenotypeProbe][k % 2], k % 3 > 0, k, modulo=m)
    n = rr.choice([2, 2, 3])
    vp = [[[rr.randint(-3, 9) for _ in range(n)] for _ in range(rr.randint(1, 4))] for _ in range(rr.randint(1, 4))]
    g = gens_for(len(vp), k)
    R.case("pareto", pareto, vp, g, m, k % 3 > 0 and True, ["generation", "births"][k % 2], m, vecs=vp, gens=g, modulo=m if m > 1 or k % 3 > 0 else 1)
def gens_long(k, style):
    s0 = rr.choice([0, 1, 95, 990])
    return list(range(s0, s0 + k)) if style % 3 else [x + s0 for x in sorted(rr.sample(range(0, 6 * k), k))]


for k in range(60 if R.thorough else 14):      # long runs, large populations, long genomes, rare rows
    mx = k % 2 == 0
    K = rr.choice([12, 30, 60, 120])
    pops = [[rr.randint(-9, 9) for _ in range(rr.choice([1, 11, 24, 40, 75, 130] if K < 50 else [1, 11, 24, 40]))] for _ in range(K)]
    if k % 3 == 0:                             # the best ever comes early and is never met again
        pops[rr.randint(0, 2)][0] = 20 if mx else -20
        pops = [[max(-12, min(12, v)) if j > 2 else v for v in p] for j, p in enumerate(pops)]
    m, gens = rr.choice([1, 5, 7, 10, 25]), gens_long(K, k)
    ex = rr.choice(EXT)
    R.case("stats", stats, pops, mx, gens, m, True, None, [], ex, None, k, max=mx, modulo=m, extras=ex)
    R.case("bsf", bsf, pops, mx, gens, True, k, max=mx)
    flat = [v for p in pops for v in p][:300]
    R.case("bsf-iter", bsf_iter, flat, mx, gens_long(len(flat), k), rr.randint(0, len(flat) - 1), k, max=mx)
    best = k % 3 > 0
    R.case("attrs", attrs, pops[:25], mx, gens[:25], ["bar", "foo"], best, True, k % 2 == 0, 3, ["a"], ["twice"], True, True, False, k + 2, max=mx, best=best)
    L = rr.choice([9, 17, 40])
    fixl = [rr.random() < .4 for _ in range(L)]
    R.case("metrics", metrics, [[2 if fixl[l] else rr.randint(-3, 3) for l in range(L)] for _ in range(rr.choice([12, 30, 50]))])
    R.case("print", prints, pops[0], mx, ["probe", "ind"][k % 2], "p:", k % 2)
    R.case("logpop", logs, pops[:40], m, True)
    R.case("print", logs, pops[:20], 0, True)
    xv = ["gen", "own"][k // 2 % 2]
    R.case("plot", plot, pops[:60], mx, gens[:60], m if k % 4 else 1, ["best", "n"], xv, k, max=mx, modulo=m if k % 4 else 1, xval=xv)
    R.case("scatter", scatter, pops[:12], mx, gens[:12], m, ["cart", "sum"][k % 2], k, max=mx, modulo=m)
    R.case("hist", hist, pops[:12], mx, gens[:12], m, [probe.HistPhenotypePlotProbe, probe.HeatMapPhenotypeProbe][k % 2], k % 3 > 0, k, modulo=m)
    vp = [[[rr.randint(-300, 900) for _ in range(2)] for _ in range(rr.choice([9, 30]))] for _ in range(12)]
    R.case("pareto", pareto, vp, gens[:12], m, True, ["generation", "births"][k % 2], m, vecs=vp, gens=gens[:12], modulo=m)
for xl, yl, gr, pad, own in ((None, None, 50, [], True), ([-200, 100], [0, 50], 25, [], True), ([0, 100], [-100, 100], None, [], False), ([0, 100], [0, 100], 50, [100], True), ([0, 40], None, 20, [25, -50], False)):
    R.case("contour", contour, xl, yl, gr, pad, own, xl=xl or [-512, 512], yl=yl or [-512, 512], gr=gr or 10, pad=pad)
for lo, hi, gr in ((0, 5, 1), (0, 8, 2), (2, 9, 3), (0, 1, 1), (1, 4, 1)):
    R.case("sumcurve", sumcurve, lo, hi, gr, 0, lo=lo, hi=hi, gr=gr)
for w in ("attr", "nothing", "df"):
    R.case("misuse", misuse, w)
gctx["leap"].pop("generation", None)
R.close()
