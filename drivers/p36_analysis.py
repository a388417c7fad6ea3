import io, math, os, shutil, tempfile, warnings
import matplotlib
matplotlib.use("agg")
import drv
import numpy as np
import pandas as pd
from click.testing import CliRunner
from matplotlib import pyplot as plt
from leap_ec.contrib import analysis
from leap_ec.contrib.analysis import CurveAnalyzer, CurvePlotter, cat_csv_files, auc, max_value
from leap_ec.individual import Individual
from leap_ec.probe import FitnessStatsCSVProbe
warnings.simplefilter("ignore")
R = drv.Rec()
rr = R.rng


def k1000(v):
    v = float(v)
    return drv.NAN if math.isnan(v) else int(round(1000 * v))


def rows_of(runs, jobstyle):
    out = []
    for n, r in enumerate(runs):
        for t, y in r["c"]:
            out.append(dict(e=r["e"], j=n if jobstyle else sum(1 for q in runs[:n] if q["e"] == r["e"]), t=t, y=y, z=7 - 2 * y + t))
    rr.shuffle(out)
    return out


def frame(rows, names):
    e, j, t, y, z = names
    return pd.DataFrame([{e: r["e"], j: r["j"], "other": k, t: r["t"], y: r["y"], z: r["z"]} for k, r in enumerate(rows)])


# an experiment may be told apart by several columns together
SPLIT = dict(a=("x", "u", 1), b=("x", "u", 2), c=("x", "v", 2), d=("w", "v", 2))


def wide(df, e):
    """The experiment column split into three columns, none of which tells the experiments apart alone."""
    out = df.drop(columns=[e])
    for k in range(3):
        out[f"{e}{k}"] = [SPLIT[x][k] for x in df[e]]
    return out


def narrow(df, e):
    back = {v: n for n, v in SPLIT.items()}
    out = df.copy()
    out[e] = [back.get((r[f"{e}0"], r[f"{e}1"], int(r[f"{e}2"])), "?") if all(f"{e}{k}" in df.columns for k in range(3)) else "?" for _, r in df.iterrows()]
    return out


def curves(df, t, e, m):
    return [dict(t=drv.num(r[t]), e=r[e], mean=k1000(r[m + "_mean"]), std=k1000(r[m + "_std"])) for _, r in df.iterrows()]


def scal(df, j, e, c):
    return [dict(j=drv.num(r[j]), e=r[e], v=drv.num(r[c])) for _, r in df.iterrows()]


def avg(df, e, c):
    return [dict(e=r[e], mean=k1000(r[c + "_mean"]), std=k1000(r[c + "_std"])) for _, r in df.iterrows()]


def summaries(rows, m, style):
    names = ("experiment", "job", "step", "bsf", "mean_fitness") if style % 2 else ("algo", "run", "gen", "best", "avg")
    e, j, t, y, z = names
    df = frame(rows, names)
    N = narrow if style % 5 == 2 else lambda d, _: d
    if style % 5 == 2:
        df = wide(df, e)
    keep = df.copy(deep=True)
    kw = dict(experiment_cols=[e] if style % 5 != 2 else [e + "0", e + "1", e + "2"], metric_cols=[y, z])
    if not style % 2:
        kw.update(time_col=t, run_col=j)
    a = CurveAnalyzer(df, **kw)
    col = dict(y=y, z=z)[m]
    c = N(a.avg_curves(), e)
    o = dict(avgy=curves(c, t, e, y), avgz=curves(c, t, e, z))
    o["auc"] = scal(N(a.scalar_metrics_per_run(col) if style % 3 else a.scalar_metrics_per_run(metric_col=col, scalar_measure=auc), e), j, e, "auc")
    o["maxv"] = scal(N(a.scalar_metrics_per_run(col, max_value), e), j, e, "max_value")
    o["avgauc"] = avg(N(a.avg_scalar_metrics(col), e), e, "auc")
    o["avgmax"] = avg(N(a.avg_scalar_metrics(col, scalar_measure=max_value), e), e, "max_value")
    o["same"] = bool(df.equals(keep))
    return o


def columns(which):
    df = frame([dict(e="a", j=0, t=0, y=1, z=1)], ("experiment", "job", "step", "bsf", "mean_fitness"))
    kw = dict(experiment_cols=["experiment"], metric_cols=["bsf"])
    kw.update(dict(time=dict(time_col="nope"), run=dict(run_col="nope"), metric=dict(metric_cols=["bsf", "nope"]), exp=dict(experiment_cols=["nope"]), none=dict(experiment_cols=[]), nometric=dict(metric_cols=[]))[which])
    return dict(refused=drv.raises(CurveAnalyzer, df, **kw) != "")


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="p36-")
        self.old = os.getcwd()
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


class Pop:
    pass


def probe_file(fn, job, exp, c, comment, style, extra=None):
    """One run's file, written by LEAP's own probe."""
    from leap_ec.binary_rep.problems import MaxOnes
    ctx = {"leap": {"generation": 0}}
    with open(fn, "w") as f:
        pr = FitnessStatsCSVProbe(stream=f, job=job, notes={"experiment": exp}, comment=comment, context=ctx, **(dict(extra_metrics={"size": lambda p: extra}) if extra else {}))
        for t, y in c:
            ctx["leap"]["generation"] = t
            x = Individual(np.array([1]), problem=MaxOnes())
            x.fitness = y
            w = Individual(np.array([1]), problem=MaxOnes())
            w.fitness = 0
            pr([w, x] if style % 2 else [x])


def best(c):
    out, b = [], None
    for t, y in c:
        b = y if b is None else max(b, y)
        out.append([t, b])
    return out


def cat(runs, style):
    with Scratch():
        want, names, more = [], [], False
        for n, r in enumerate(runs):
            jn = n if style % 3 else 0      # files of the same job may hold equal rows
            probe_file(f"r{n}.csv", jn, r["e"], r["c"], [None, "hello", "a\nb"][(n + style) % 3], style, extra=5 + n if (n + style) % 5 == 3 else None)
            if (n + style) % 4 == 2:       # written by hand or another tool: blanks after the commas
                with open(f"r{n}.csv") as f:
                    txt = f.read().replace(",", ", ")
                with open(f"r{n}.csv", "w") as f:
                    f.write(txt)
            names.append(f"r{n}.csv")
            more |= (n + style) % 5 == 3
            want += [dict(e=r["e"], j=jn, t=t, y=y, x=5 + n if (n + style) % 5 == 3 else drv.NAN) for t, y in best(r["c"])]
        df = cat_csv_files(names if style % 2 else tuple(names))
        got = [dict(e=q["experiment"], j=drv.num(q["job"]), t=drv.num(q["step"]), y=drv.num(q["bsf"]), x=drv.num(q["size"]) if "size" in df.columns else drv.NAN) for _, q in df.iterrows()]
        return dict(got=got, want=want, cols=sorted(df.columns), wantcols=sorted(["job", "experiment", "step", "bsf", "mean_fitness", "std_fitness", "min_fitness", "max_fitness"] + ["size"] * more))


def cli(runs, style):
    with Scratch():
        rows, names = [], []
        for n, r in enumerate(runs):
            probe_file(f"r{n}.csv", n, r["e"], r["c"], [None, "x"][style % 2], style)
            names.append(f"r{n}.csv")
            rows += [dict(e=r["e"], j=n, t=t, y=y) for t, y in best(r["c"])]
        res = CliRunner().invoke(analysis.cli, ["analyze"] + names)
        if res.exception:
            raise res.exception
        rd = lambda f: pd.read_csv(f, skipinitialspace=True)
        al = rd("curves_combined.csv")
        return dict(rows=rows, avgy=curves(rd("avg_curves_by_experiment.csv"), "step", "experiment", "bsf"), auc=scal(rd("scalars_by_run.csv"), "job", "experiment", "auc"),
                    avgauc=avg(rd("avg_scalars_by_experiment.csv"), "experiment", "auc"), all=[dict(e=q["experiment"], j=drv.num(q["job"]), t=drv.num(q["step"]), y=drv.num(q["bsf"])) for _, q in al.iterrows()])


def plots(rows, err):
    """Rows are sorted by time within a run, as probes write them (a run's line follows its rows)."""
    names = ("experiment", "job", "step", "bsf", "mean_fitness")
    df = frame(rows, names)
    a = CurveAnalyzer(df, experiment_cols=["experiment"], metric_cols=["bsf"])
    p = CurvePlotter(a)
    fig, ax = plt.subplots()
    try:
        p.plot_curves("bsf", "T", ax=ax)
        lines = [dict(pts=[[drv.num(x), drv.num(y)] for x, y in zip(l.get_xdata(), l.get_ydata())], col=matplotlib.colors.to_hex(l.get_color())) for l in ax.lines]
    finally:
        plt.close(fig)
    by = {}
    for r in rows:
        by.setdefault((r["e"], r["j"]), []).append([r["t"], r["y"]])
    exps = [l["pts"][0][1] % 10 if l["pts"] else -1 for l in lines]
    fig, ax = plt.subplots()
    try:
        p.plot_avg_curves("bsf", "T", err, None, ax=ax)
        means = [l for l in ax.lines if len(l.get_xdata()) and l.get_linestyle() == "-" and l.get_marker() == "o"]
        es = sorted({r["e"] for r in rows})
        c = a.avg_curves()
        mp = []
        for e, l in zip(es, means):
            for x, y in zip(l.get_xdata(), l.get_ydata()):
                sd = c[(c.experiment == e) & (c.step == x)].bsf_std
                mp.append(dict(t=drv.num(x), e=e, mean=k1000(y), std=k1000(sd.iloc[0]) if len(sd) else drv.BADT))
        return dict(err=bool(err), bars=len(ax.collections) + len(ax.containers) > 0, lines=lines, exps=exps, want=list(by.values()), means=[0 for _ in means], meanpts=mp)
    finally:
        plt.close(fig)


def plotcli(rows, cmd, modulo, m, tcol, err):
    """leap plot curves|avg-curves|auc|all FILE: what is on the figure when it is shown."""
    shown = []

    def show(*a, **k):
        for ax in plt.gcf().axes:
            shown.append([(np.asarray(l.get_xdata()).tolist(), np.asarray(l.get_ydata()).tolist(), l.get_marker(), l.get_linestyle()) for l in ax.lines])
    col = dict(y="bsf", z="max_fitness")[m]
    with Scratch():
        pd.DataFrame([{"experiment": r["e"], "job": r["j"], tcol: r["t"], "bsf": r["y"], "mean_fitness": 0, "std_fitness": 0, "min_fitness": 0, "max_fitness": r["z"]} for r in rows]).to_csv("c.csv", index=False)
        args = ["plot", cmd, "c.csv"] + (["--metric-col", col] if m != "y" else []) + (["--time-col", tcol] if tcol != "step" else [])
        args += (["--modulo", str(modulo)] if modulo > 1 else []) + (["--no-error"] if cmd in ("all", "avg-curves") and not err else [])
        old = plt.show
        plt.show = show
        try:
            res = CliRunner().invoke(analysis.cli, args)
        finally:
            plt.show = old
            plt.close("all")
        if res.exception:
            raise res.exception
    part = dict(curves=[0], all=[0, 1, 2], auc=[2]).get(cmd, [1])
    got = dict(zip(part, shown)) if len(shown) == len(part) else {}
    pts = lambda l: [[drv.num(x), drv.num(y)] for x, y in zip(l[0], l[1])]
    es = sorted({r["e"] for r in rows if r["t"] % modulo == 0})
    mean = [l for l in got.get(1, []) if l[2] == "o" and l[3] == "-"]
    box = got.get(2, [])
    return dict(part=part, shown=len(shown), lines=[pts(l) for l in got.get(0, [])], nmeans=len(mean), exps=es,
                means=[dict(t=drv.num(x), e=e, mean=k1000(y)) for e, l in zip(es, mean) for x, y in zip(l[0], l[1])],
                # pandas draws seven lines per box, the sixth of which is the median
                med2=[int(round(2 * box[7 * g + 5][1][0])) for g in range(len(box) // 7)])


for k, g in enumerate(R.gen()):
    rows = rows_of(g["runs"], k % 2)
    m = "yz"[k % 2]
    R.case("summaries", summaries, rows, m, k // 2, rows=rows, m=m)
    if k % 12 == 3:
        R.case("cat", cat, [dict(e=r["e"], c=sorted(r["c"])) for r in g["runs"]], k)
    if k % 40 == 6:
        R.case("cli", cli, [dict(e=r["e"], c=sorted(r["c"])) for r in g["runs"]], k)
for k in range(400 if R.thorough else 60):
    runs = [dict(e=rr.choice("abc"), c=[[t, rr.randint(0, 9)] for t in sorted(rr.sample(range(0, 15), rr.randint(1, 6)))]) for _ in range(rr.randint(1, 6))]
    if k % 2:
        ts = sorted(rr.sample(range(0, 15), rr.randint(1, 5)))
        runs = [dict(e=rr.choice("abc"), c=[[t, rr.randint(-5, 9)] for t in ts]) for _ in range(rr.randint(2, 6))]
    rows = rows_of(runs, k % 2)
    m = "yz"[k % 2]
    R.case("summaries", summaries, rows, m, k, rows=rows, m=m)
    if k % 4 == 0:
        R.case("cli", cli, runs, k)
        R.case("cat", cat, runs + runs[:1] if k % 8 else runs, k)
    if k % 4 == 1:
        rows = sorted(rows_of(runs, 1), key=lambda r: r["t"])
        for r in rows:      # a line tells its experiment by its last digit
            r["y"] = 10 * abs(r["y"]) + "abc".index(r["e"])
        R.case("plots", plots, rows, k % 8 == 1, rows=rows)
for k in range(40 if R.thorough else 8):       # many long runs
    ts = sorted(rr.sample(range(0, 45), rr.choice([12, 25, 40])))
    runs = [dict(e=rr.choice("abc"), c=[[t, rr.randint(0, 3)] for t in (ts if k % 2 else sorted(rr.sample(ts, rr.randint(2, 12))))]) for _ in range(rr.choice([9, 14]))]
    rows = rows_of(runs, k % 2)
    m = "yz"[k % 2]
    R.case("summaries", summaries, rows, m, k, rows=rows, m=m)
    if k % 2:
        R.case("cli", cli, runs, k)
        R.case("cat", cat, runs + runs[:2], k)
for k in range(120 if R.thorough else 24):
    cmd = ["all", "curves", "avg-curves", "auc"][k % 4]
    mo = rr.choice([1, 2, 3, 5]) if cmd == "all" else 1
    runs = [dict(e=rr.choice("abc"), c=[[t, rr.randint(0, 9)] for t in sorted(set(rr.sample(range(1, 31), rr.randint(2, 12))) | {30})]) for _ in range(rr.randint(1, 6))]
    rows = sorted(rows_of(runs, 1), key=lambda r: (r["t"], r["j"]))
    m = "yz"[k // 4 % 2]
    R.case("plotcli", plotcli, rows, cmd, mo, m, ["step", "gen"][k // 8 % 2], k % 3 > 0, rows=rows, m=m, modulo=mo)
for w in ("time", "run", "metric", "exp", "none", "nometric"):
    R.case("columns", columns, w)
R.close()
