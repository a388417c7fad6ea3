import itertools
import drv
import numpy as np
from leap_ec import util
from leap_ec.individual import Individual
from leap_ec.global_vars import context as gctx
R = drv.Rec()
rr = R.rng


def counter(what, start, ops, ncb, style):
    ctx = {"leap": {}}
    glob = style % 3 == 0
    if glob:
        ctx = gctx
        gctx["leap"].pop("generation", None), gctx["leap"].pop("births", None)
        other = {"leap": {"x": 1}}
    else:
        other = gctx
        gctx["leap"]["generation"] = gctx["leap"]["births"] = 41
    # an unrelated counter that lives in the same context under the other name
    sib = None
    if style % 2:
        sib = util.inc_generation(context=ctx, start_generation=100) if what == "births" else util.inc_births(context=ctx, start=100)
    log = []
    cbs = [lambda v, j=j: log.append([j, drv.num(v)]) for j in range(1, ncb + 1)]
    cbs = [list(cbs), tuple(cbs)][style % 2]
    kw = dict(callbacks=cbs) if ncb or style % 4 == 0 else {}
    if not glob:
        kw["context"] = ctx
    key = what
    if what == "births":
        if start or style % 5:
            kw["start"] = start
        c = util.inc_births(**kw)
        own = c.births
    else:
        if start or style % 5:
            kw["start_generation"] = start
        c = util.inc_generation(**kw)
        own = c.generation
    before = repr(other)
    d = dict(own0=drv.num(own()), pub0=drv.num(ctx["leap"].get(key)), ret=[], own=[], pub=[])
    for n, op in enumerate(ops):
        if sib and n % 2:
            sib()
        if what == "generation":
            r = c()
        elif op == -1:
            r = c.do_decrement()
        elif op == 1 and n % 2 == 0:
            r = c()
        else:
            r = [c, c.do_increment][n % 2](op) if n % 3 else c(size=op)
        d["ret"].append(drv.num(r)), d["own"].append(drv.num(own())), d["pub"].append(drv.num(ctx["leap"].get(key)))
    return dict(d, log=log, foreign=repr(other) == before)


def step(g, b, ug, ub, style):
    gv, bv = 3 + style % 4, 50 + style % 7
    if style % 3 == 2:
        gv, bv = 0, 0 if style % 2 else 9
    ctx = {"leap": {"other": 1}}
    if g:
        ctx["leap"]["generation"] = gv
    if b:
        ctx["leap"]["births"] = bv
    M = {"N": None, "T": True, "F": False}
    kw = {}
    if ug != "N" or style % 2:
        kw["use_generation"] = M[ug]
    if ub != "N" or style % 2:
        kw["use_births"] = M[ub]
    rep = repr(ctx)
    if style % 5 == 4:      # through the global context
        saved = dict(gctx["leap"])
        gctx["leap"].pop("generation", None), gctx["leap"].pop("births", None)
        gctx["leap"].update({k: v for k, v in ctx["leap"].items() if k != "other"})
        f = lambda: util.get_step(**kw)
    else:
        saved, f = None, lambda: util.get_step(ctx, **kw)
    ans, err = drv.NONE, ""
    try:
        ans = drv.num(f())
    except Exception as e:
        err = type(e).__name__
    finally:
        if saved is not None:
            gctx["leap"].clear(), gctx["leap"].update(saved)
    return dict(gv=gv, bv=bv, ans=ans, err=err, same=repr(ctx) == rep)


def brand(passes, via, style):
    top = max([3] + [k for g in passes for k in g])
    X = {k: Individual(np.array([k])) for k in range(1, top + 1)}
    at = {id(v): k for k, v in X.items()}
    br = util.birth_brander()
    flat, out, births = [], [], []
    for n, g in enumerate(passes):
        v = via if via != "mixed" else ["pop", "iter", "popiter"][(n + style) % 3]
        inds = [X[k] for k in g]
        if v == "pop":
            res = br.brand_population(inds)
            b = [drv.num(getattr(x, "birth", None)) for x in res]
            res = list(res)
        else:
            it = br(inds if v == "popiter" else (x for x in inds))
            res, b = [], []
            for _ in g:
                res.append(next(it))
                b.append(drv.num(getattr(res[-1], "birth", None)))
        flat += g
        out += [at.get(id(x), 0) for x in res]
        births += b
    return dict(flat=flat, out=out, births=births, fin=[drv.num(getattr(X[k], "birth", None)) for k in range(1, top + 1)])


def foreign(n, m):
    a, b = util.birth_brander(), util.birth_brander()
    P = [Individual(np.array([k])) for k in range(n + m)]
    a.brand_population(P[:n])
    before = [x.birth for x in P[:n]]
    mix = P[:]
    rr.shuffle(mix)
    res = b.brand_population(mix) if n % 2 else [x for _, x in zip(mix, b(mix))]
    return dict(before=before, after=[drv.num(x.birth) for x in P[:n]], fresh=[drv.num(x.birth) for x in mix if any(x is y for y in P[n:])])


def clones(via):
    P = [Individual(np.array([k])) for k in range(2)]
    br = util.birth_brander()
    br.brand_population(P)
    ch = [x.clone() for x in P]
    br.brand_population(ch) if via == "pop" else [x for _, x in zip(ch, br(iter(ch)))]
    return dict(births=[drv.num(x.birth) for x in P + ch])


for k, c in enumerate(R.gen()):
    if c["what"] == "step":
        for s in range(10):
            R.case("step", step, c["g"], c["b"], c["ug"], c["ub"], s, g=c["g"], b=c["b"], ug=c["ug"], ub=c["ub"])
    elif c["what"] == "brand":
        R.case("brand", brand, c["passes"], c["via"], k)
    else:
        ncb = k % 3
        R.case("counter", counter, c["what"], c["start"], c["ops"], ncb, k, what=c["what"], start=c["start"], ops=c["ops"], ncb=ncb)
for k in range(60 if R.thorough else 10):       # long lives
    ops_ = [rr.choice([1, 1, 1, 2, 7, 30, 0, -1]) for _ in range(80)]
    st = rr.choice([0, 5, 900])
    R.case("counter", counter, "births", st, ops_, k % 3, k, what="births", start=st, ops=ops_, ncb=k % 3)
    R.case("counter", counter, "generation", st, [1] * 80, k % 3, k, what="generation", start=st, ops=[1] * 80, ncb=k % 3)
    passes = [[rr.randint(1, 60) for _ in range(rr.choice([1, 5, 20]))] for _ in range(8)]
    R.case("brand", brand, passes, ["pop", "iter", "popiter", "mixed"][k % 4], k)
for n in range(0, 4):
    for m in range(0, 4):
        if n + m:
            R.case("brand-foreign", foreign, n, m)
for v in ("pop", "iter"):
    R.case("brand-clone", clones, v, via=v)
R.close()
