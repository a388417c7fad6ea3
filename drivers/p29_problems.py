import itertools, os, random
import drv
import numpy as np
from PIL import Image
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.global_vars import context as gctx
from leap_ec import ops
from leap_ec.problem import (FunctionProblem, ConstantProblem, ExternalProcessProblem, FitnessOffsetProblem, AverageFitnessProblem, AlternatingProblem)
from leap_ec.binary_rep.problems import MaxOnes, LeadingOnes, DeceptiveTrap, TwoMax, ImageProblem
from leap_ec.executable_rep.problems import TruthTableProblem, EnvironmentProblem, ImageXYProblem
R = drv.Rec()
rr = R.rng
DT = [int, bool, np.int8, np.uint8]


def ev(p, x, style):
    """evaluate directly, through an individual, or as a batch"""
    if style % 3 == 0:
        return p.evaluate(x)
    if style % 3 == 1:
        return Individual(x, IdentityDecoder(), p).evaluate()
    return p.evaluate_multiple([x])[0]


def bits(s, t, target, style):
    x = np.array(s, dtype=DT[style % 4])
    kw = dict(target_string=np.array(t)) if target else {}
    mx = bool(style % 2)
    ps = [MaxOnes(maximize=mx, **kw), LeadingOnes(maximize=mx, **kw), TwoMax(maximize=mx), DeceptiveTrap(maximize=mx)]
    v = [drv.num(ev(p, x, style)) for p in ps]
    return dict(maxones=v[0], leading=v[1], twomax=v[2], trap=v[3], same=x.tolist() == np.array(s, dtype=DT[style % 4]).tolist(), dirs=all(p.worse_than(1, 2) == mx for p in ps))


class Own(FunctionProblem):
    """a problem with its own idea of equivalence"""
    def equivalent(self, a, b):
        return a % self.mod == b % self.mod


def alt(np_, modulo, gens, style):
    by, k = [], [0]
    probs = [Own(lambda x, j=j: (by.append(j), 100 * j + k[0])[1], maximize=j % 2 == 1) for j in range(1, np_ + 1)]
    for q, pr in enumerate(probs):
        pr.mod = 1000 + q
    own = style % 2
    ctx = {"leap": {"generation": 5}} if own else gctx
    p = AlternatingProblem(probs, modulo, **(dict(context=ctx) if own else {}))
    if own:
        gctx["leap"]["generation"] = 999
    fit, worse, eq = [], [], []
    for n, g in enumerate(gens):
        ctx["leap"]["generation"] = g
        k[0] = n + 1
        fit.append(drv.num(ev(p, np.array([1]), style + n)))
        worse.append(bool(p.worse_than(1, 2)))
        eq.append([q + 1 for q in range(np_) if p.equivalent(3, 1003 + q)])
    gctx["leap"].pop("generation", None)
    return dict(by=by, fit=fit, worse=worse, equiv=eq)


class Exe:
    def __init__(self, table, nin, pad, seen):
        self.table, self.num_inputs, self.nin, self.seen = table, nin + pad, nin, seen

    def __call__(self, x):
        row = [int(v) for v in x[:self.nin]]
        self.seen.append([int(v) for v in x])
        v = self.table[sum(b << (self.nin - 1 - k) for k, b in enumerate(row))]
        return v


def tt(nin, prog, want, nout, pad, style):
    seen = []

    def target(row):
        return [bool(want[sum(int(b) << (nin - 1 - k) for k, b in enumerate(row))])] + [1] * (nout - 1)
    # a program wrong in any single output is wrong in that row
    table = [[p] + [1] * (nout - 1) for p in prog]
    if nout > 1:
        at = [1 + (style + v) % (nout - 1) for v in range(len(prog))] if nout > 3 else [1] * len(prog)
        table = [[w] + [1 if p == w or q != at[v] else 0 for q in range(1, nout)] for v, (p, w) in enumerate(zip(prog, want))]
    if style % 5 == 4:      # right outputs followed by one too many, or none at all, are wrong too
        table = [([w] + [1] * (nout - 1)) + ([] if p == w else [1]) for p, w in zip(prog, want)]
    elif style % 7 == 5:    # and so is a number which merely counts as true
        table = [([w] + [1] * (nout - 1)) if p == w else [2] + [1] * (nout - 1) for p, w in zip(prog, want)]
    p = TruthTableProblem(target, num_inputs=nin, num_outputs=nout, pad_inputs=pad > 0) if pad or style % 4 else TruthTableProblem(target, num_inputs=nin, num_outputs=nout)
    exe = Exe(table, nin, pad or style % 3, seen)     # padded only where asked for
    v = ev(p, exe if pad or style % 2 else lambda x: exe(x), style)
    return dict(score=drv.num(round(float(v) * 2 ** nin, 9)), seen=seen)


def avg(n, phs, style, nan=False):
    vals, got = [], []

    def f(x):
        v = rr.randint(-20, 20)
        vals.append(v), got.append(int(x[0]))
        return v
    mx = bool(style % 2)
    if nan:
        g = f
        f = lambda x: float("nan") if g(x) % 5 == 0 else vals[-1]
    p = AverageFitnessProblem(FunctionProblem(f, maximize=mx), n)
    X = [np.array([v]) for v in phs]
    if style % 3 == 0:
        out = [p.evaluate(x) for x in X]
    elif style % 3 == 1:
        out = p.evaluate_multiple(X)
    else:
        inds = [Individual(x, IdentityDecoder(), p) for x in X]
        if X:
            it = ops.grouped_evaluate(inds, max_individuals_per_chunk=1 + style % 4)
            list(it)
        out = [x.fitness for x in inds]
    if nan:
        vals = [drv.NAN if v % 5 == 0 else v for v in vals]
    return dict(vals=vals, got=got, fits=[drv.NAN if float(v) != float(v) else drv.num(round(float(v) * n, 6)) for v in out], cmp=p.worse_than(1, 2) == mx and p.equivalent(2, 2) and not p.equivalent(2, 3))


def offset(vals, c, style):
    calls, it = [0], iter(vals)

    def f(x):
        calls[0] += 1
        return next(it)
    mx = bool(style % 2)
    kw, want = {}, mx
    if style % 4 == 3:
        kw, want = dict(maximize=not mx), not mx
    p = FitnessOffsetProblem(FunctionProblem(f, maximize=mx), fitness_offset=c, **kw)
    fits = [ev(p, np.array([k]), style + k) for k in range(len(vals))]
    return dict(fits=drv.nums(fits), calls=calls[0], dir=p.worse_than(1, 2) == want and p.maximize == want)


def constop(n, c, style):
    """the constant-evaluation operator: everybody gets the value, nobody is evaluated"""
    calls = [0]

    def f(x):
        calls[0] += 1
        return 77
    prob = FunctionProblem(f, maximize=True)
    P = [Individual(np.array([k]), IdentityDecoder(), prob) for k in range(n)]
    if style % 2 and P:
        P[-1].fitness = 5
    out = ops.const_evaluate(list(P), value=c) if style % 3 else ops.const_evaluate(value=c)(list(P))
    return dict(fits=[drv.num(x.fitness) for x in out], n=n, calls=calls[0], same=len(out) == n and all(a is b for a, b in zip(out, P)) and all(x.genome.tolist() == [k] for k, x in enumerate(P)))


def extra(vals):
    """further arguments of evaluate() reach the wrapped function"""
    got = []
    p = FunctionProblem(lambda x, *a, **k: (got.append([list(a), sorted(k.items())]), 3)[1], maximize=True)
    fits = [p.evaluate(np.array([0])), p.evaluate(np.array([0]), *vals), p.evaluate(np.array([0]), individual=5, other=vals)]
    return dict(ok=got == [[[], []], [list(vals), []], [[], [("individual", 5), ("other", vals)]]] and fits == [3, 3, 3])


def constant(c, style):
    p = ConstantProblem(c=c) if style % 2 else ConstantProblem(maximize=True, c=c)
    return dict(fits=[drv.num(ev(p, np.array([k]), k)) for k in range(3)])


SH = {"ok": 'while read -r l || [ -n "$l" ]; do echo "$l" | awk -F, \'{s=0; for(i=1;i<=NF;i++) s+=$i; print 10*s+$1}\'; done',
      "echo": "while IFS=, read -r a b || [ -n \"$a\" ]; do echo \"$b\"; done", "exit1": "cat >/dev/null; exit 1", "exit3-after-output": 'while read -r l || [ -n "$l" ]; do echo 1; done; exit 3',
      "few": 'n=0; while read -r l || [ -n "$l" ]; do n=$((n+1)); [ $n -gt 1 ] && echo 1; done; exit 0', "many": 'while read -r l || [ -n "$l" ]; do echo 1; done; echo 2', "junk": 'while read -r l || [ -n "$l" ]; do echo abc; done'}
EXE = os.path.join(R.a.work, "sim.sh")
with open(EXE, "w") as f:
    f.write("#!/bin/sh\ncase \"$1\" in\n" + "".join(f"{k}) {v} ;;\n" for k, v in SH.items()) + "esac\n")
os.chmod(EXE, 0o755)


def ext(phs, mode, style):
    args = [mode]
    p = ExternalProcessProblem(EXE, maximize=True, args=args)
    args.append("junk")
    args[0] = "exit1" if mode == "ok" else "ok"      # the list is the caller's to reuse
    X = [np.array(v) for v in phs]
    fits, err = [], ""
    try:
        if style % 3 == 0 and len(X) == 1:
            fits = [p.evaluate(X[0])]
        elif style % 3 == 1 and X:
            inds = [Individual(x, IdentityDecoder(), p) for x in X]
            list(ops.grouped_evaluate(inds, max_individuals_per_chunk=len(X)))
            fits = [x.fitness for x in inds]
        else:
            fits = p.evaluate_multiple(X)
    except Exception as e:
        err = type(e).__name__
    return dict(fits=drv.nums(fits), err=err)


def extexact(ms, base, style):
    """real-valued phenomes reach the simulation, and its answers come back, to the last digit: base + m/2^45 is echoed"""
    p = ExternalProcessProblem(EXE, maximize=True, args=["echo"])
    X = [np.array([1.0, base + m / 2 ** 45]) for m in ms]
    fits = p.evaluate_multiple(X) if style % 2 else [Individual(x, IdentityDecoder(), p).evaluate() for x in X]
    return dict(back=[drv.num((v - base) * 2 ** 45) for v in fits])


class Env:
    def __init__(self, done):
        self.done, self.r, self.steps, self.resets, self.ok, self.obs, self.shown = done, -1, [], 0, True, None, []

    def reset(self):
        self.resets += 1
        self.r, self.t = (self.resets - 1) % len(self.done), 0
        self.steps.append(0)
        self.obs = 1000 * self.r
        return self.obs, {}

    def render(self):
        self.shown.append(self.obs)

    def step(self, a):
        self.ok &= a == self.obs + 7
        self.steps[-1] += 1
        d = self.done[self.r][self.t]
        self.t += 1
        self.obs = 1000 * self.r + self.t
        how = (self.r + self.t) % 2
        return self.obs, 10 * (self.r + 1) + self.t, d and how == 0, d and how == 1, {}


def space(sp):
    """a gymnasium space and its number of dimensions, from a specification-generated description"""
    from gymnasium import spaces
    if sp[0] == "discrete":
        return spaces.Discrete(sp[1][0])
    if sp[0] == "box":
        return spaces.Box(low=-1., high=2., shape=tuple(sp[1]), dtype=np.float32)
    return spaces.Tuple([space(s) for s in sp[1]])


def dims(obs, act):
    E = Env([[True]])
    E.observation_space, E.action_space = space(obs), space(act)
    p = EnvironmentProblem(runs=1, steps=1, environment=E, fitness_type="reward", gui=False)
    return dict(nin=drv.num(p.num_inputs), nout=drv.num(p.num_outputs), sin=drv.num(EnvironmentProblem.space_dimensions(E.observation_space)))


def near(v):
    """an exact sum, which may be large; -1 for what is not a whole number"""
    return int(round(v)) if np.isfinite(v) and abs(v - round(v)) < 1e-3 and abs(v) < 2e9 else -1


def env(done, stop, limit, style):
    out = {}
    for ft in ("reward", "survival"):
        E = Env(done)
        p = EnvironmentProblem(runs=len(done), steps=limit, environment=E, fitness_type=ft, gui=style % 5 == 0, **(dict(stop_on_done=stop) if not stop or style % 2 else {}))
        out[ft] = near(float(ev(p, lambda o: o + 7, style)) * len(done))
    mx = [bool(EnvironmentProblem(runs=1, steps=1, environment=E, fitness_type="reward", gui=False, **kw).worse_than(1, 2)) for kw in ({}, dict(maximize=True), dict(maximize=False))]
    return dict(out, mx=mx, resets=E.resets, steps=E.steps, actsok=E.ok, shown=E.shown == ([1000 * (r % len(done)) + t for r, n in enumerate(E.steps) for t in range(n)] if style % 5 == 0 else []))


def image(w, h, style):
    bitsv = [[rr.randint(0, 1) for _ in range(w)] for _ in range(h)]
    left = w if style % 3 == 1 else 0      # a picture three times as wide is cropped, not squeezed
    im = Image.new("1", (w + 2 * left, h))
    for y in range(h):
        for x in range(w + 2 * left):
            im.putpixel((x, y), 255 * bitsv[y][x - left] if left <= x < left + w else 255 * rr.randint(0, 1))
    path = os.path.join(R.a.work, "img.png")
    im.save(path)
    p = ImageProblem(path, size=(w, h))
    flat = [v for r in bitsv for v in r]
    ph = [v if rr.random() < .5 else 1 - v for v in flat]
    return dict(img=flat, ph=ph, fit=drv.num(ev(p, np.array(ph).astype(bool), style)))


def imagexy(w, h, style):
    px = [[[rr.randint(0, 30) for _ in range(3)] for _ in range(w)] for _ in range(h)]
    im = Image.new("RGB", (w, h))
    for y in range(h):
        for x in range(w):
            im.putpixel((x, y), tuple(px[y][x]))
    path = os.path.join(R.a.work, "imgxy.png")
    im.save(path)
    p = ImageXYProblem(path)
    o = [0, -20, 270, 600][style % 4]      # a program may leave the range of a picture
    fr = .75 if style % 3 == 2 else 0       # of a fractional colour the whole part counts
    f = lambda xy: [xy[0] * 3 + xy[1] + (o + fr if o >= 0 else o), xy[1] * 2 + 1 + fr, xy[0] * xy[1] - o]
    v = ev(p, f, style)
    return dict(img=[px[y][x] for y in range(h) for x in range(w)], gen=[[3 * x + y + o, 2 * y + 1, x * y - o] for y in range(h) for x in range(w)], fit2=near(float(v) ** 2))


def direction(name, given):
    """the direction a problem compares in, as documented or as told"""
    path = os.path.join(R.a.work, "dir.png")
    Image.new("RGB", (2, 2)).save(path)
    mk = dict(maxones=MaxOnes, leading=LeadingOnes, twomax=TwoMax, trap=DeceptiveTrap, constant=ConstantProblem,
              tt=lambda **kw: TruthTableProblem(lambda x: [1], num_inputs=1, num_outputs=1, **kw), image=lambda **kw: ImageProblem(path, **kw), imagexy=lambda **kw: ImageXYProblem(path, **kw),
              external=lambda maximize=None: ExternalProcessProblem(EXE, maximize=bool(maximize)))[name]
    p = mk(**({} if given == 2 else dict(maximize=bool(given))))
    return dict(less=bool(p.worse_than(1, 2)), more=bool(p.worse_than(2, 1)), eq=bool(p.worse_than(1, 1)), same=bool(p.equivalent(2, 2)), other=bool(p.equivalent(1, 2)))


for name, dflt in (("maxones", 1), ("leading", 1), ("twomax", 1), ("trap", 1), ("constant", 0), ("tt", 1), ("image", 1), ("imagexy", 0), ("external", 0)):
    for given in (0, 1, 2):
        R.case("direction", direction, name, given, up=bool(dflt if given == 2 else given))
for k, c in enumerate(R.gen()):
    w = c["what"]
    if w == "bits":
        R.case(w, bits, c["s"], c["t"], c["target"], k, s=c["s"], t=c["t"], target=c["target"])
    elif w == "alt":
        R.case(w, alt, c["np"], c["modulo"], c["gens"], k, np=c["np"], modulo=c["modulo"], gens=c["gens"])
    elif w == "tt":
        pad = [0, 0, 1, 2][k % 4]
        R.case(w, tt, c["nin"], c["prog"], c["want"], 1 + k % 3, pad, k, nin=c["nin"], prog=c["prog"], want=c["want"], pad=pad)
    elif w == "avg":
        for s in range(3):
            R.case(w, avg, c["n"], c["phs"], 3 * k + s, n=c["n"], phs=c["phs"])
    elif w == "ext":
        R.case(w, ext, c["phs"], c["mode"], k, phs=c["phs"], mode=c["mode"])
    elif w == "env":
        R.case(w, env, c["done"], c["stop"], c["limit"], k, done=c["done"], stop=c["stop"], lim=c["limit"])
for k in range(12 if R.thorough else 4):
    ms, base = [rr.randint(-9999, 9999) for _ in range(1 + k % 4)], rr.choice([0, 1, -7, 100])
    R.case("extexact", extexact, ms, base, k, ms=ms)
SP = [("discrete", [3]), ("discrete", [8]), ("box", [1]), ("box", [4]), ("box", [2, 3]), ("box", [2, 1, 2])]
SP += [("tuple", [a, b]) for a in SP[::2] for b in SP[1::2]]
for a in SP:
    for b in SP:
        R.case("dims", dims, a, b, obs=a, act=b)
for k in range(300 if R.thorough else 40):
    n = rr.randint(9, 24)
    s = [rr.choice([1, 1, 1, 0]) for _ in range(n)]
    tgt = k % 2 == 0
    t = [rr.randint(0, 1) if tgt else 1 for _ in range(n)]
    if tgt and k % 4 == 0:
        q = rr.randint(0, n)
        s = t[:q] + [1 - v for v in t[q:q + 1]] + s[q + 1:]
    R.case("bits", bits, s, t, tgt, k, s=s, t=t, target=tgt)
    nin = 3
    prog, want = [rr.randint(0, 1) for _ in range(8)], [rr.randint(0, 1) for _ in range(8)]
    R.case("tt", tt, nin, prog, want, 1 + k % 3, k % 3, k, nin=nin, prog=prog, want=want, pad=k % 3)
    vals = [rr.randint(-50, 50) for _ in range(rr.randint(1, 4))]
    cc = rr.randint(-9, 9)
    R.case("offset", offset, vals, cc, k, vals=vals, c=cc)
    R.case("constant", constant, cc, k, c=cc)
    R.case("constop", constop, k % 9, cc, k, c=cc)
    if k < 60:
        R.case("image", image, rr.randint(1, 4), rr.randint(1, 4), k)
        R.case("imagexy", imagexy, rr.randint(1, 4), rr.randint(1, 4), k)
for k in range(150 if R.thorough else 30):      # long strings, many problems, long episodes, big batches
    n = rr.choice([40, 90, 200])
    s = [int(rr.random() > .02) for _ in range(n)] if k % 3 else [rr.choice([0, 1])] * n
    tgt = k % 2 == 0
    t = [rr.randint(0, 1) if tgt else 1 for _ in range(n)]
    if tgt and k % 4 == 0:
        q = rr.randint(0, n)
        s = t[:q] + [1 - v for v in t[q:q + 1]] + s[q + 1:]
    R.case("bits", bits, s, t, tgt, k, s=s, t=t, target=tgt)
    npb, mo = rr.randint(1, 7), rr.choice([1, 3, 10, 25])
    gens = [rr.randint(0, 400) for _ in range(40)] if k % 2 else list(range(100, 180))
    R.case("alt", alt, npb, mo, gens, k, np=npb, modulo=mo, gens=gens)
    mo = rr.choice([49, 98, 103, 107, 161, 187, 197])      # whole multiples, and their neighbours, of any modulo
    gens = [q * mo + d for q in range(1, 25) for d in (-1, 0)]
    R.case("alt", alt, npb, mo, gens, k, np=npb, modulo=mo, gens=gens)
    nin = rr.randint(4, 7)
    want = [rr.randint(0, 1) for _ in range(2 ** nin)]
    prog = [w if rr.random() < .9 or k % 3 == 0 else 1 - w for w in want]
    R.case("tt", tt, nin, prog, want, 1 + k % 3, k % 3, k, nin=nin, prog=prog, want=want, pad=k % 3)
    nn, phs = rr.choice([5, 12, 20]), [rr.randint(1, 6) for _ in range(rr.choice([7, 15, 30]))]
    R.case("avg", avg, nn, phs, k, n=nn, phs=phs)
    runs, lim = rr.randint(3, 8), rr.choice([10, 30, 60])
    done = [[rr.random() < rr.choice([.01, .05, .2]) for _ in range(lim)] for _ in range(runs)]
    stop = k % 3 > 0
    R.case("env", env, done, stop, lim, k, done=done, stop=stop, lim=lim)
    if k < 12:
        ph = [[rr.randint(-9, 20) for _ in range(1 + k % 4)] for _ in range(rr.choice([12, 30, 60]))]
        for mode in ("ok", "few", "many"):
            R.case("ext", ext, ph, mode, k, phs=ph, mode=mode)
        R.case("image", image, rr.randint(9, 20), rr.randint(9, 20), k)
        R.case("imagexy", imagexy, rr.randint(6, 14), rr.randint(6, 14), k)
for k in range(60 if R.thorough else 16):      # very long episodes, many runs, many outputs, large tables, failed trials
    runs, lim = rr.choice([1, 13, 30]), 40
    if k % 4 == 0:
        runs, lim = 2, rr.choice([260, 700, 1300])
    done = [[rr.random() < .002 for _ in range(lim)] for _ in range(runs)]
    R.case("env", env, done, k % 3 > 0, lim, k, done=done, stop=k % 3 > 0, lim=lim)
    nin, nout = rr.choice([2, 4]), rr.choice([5, 9, 14])
    if k in (3, 7):
        nin, nout = [11, 12][k % 8 == 7], 1
    want = [rr.randint(0, 1) for _ in range(2 ** nin)]
    prog = [w if rr.random() < .8 else 1 - w for w in want]
    R.case("tt", tt, nin, prog, want, nout, k % 3, k, nin=nin, prog=prog, want=want, pad=k % 3)
    nn, phs = rr.choice([1, 2, 3]), list(range(1, rr.choice([3, 9])))
    R.case("avg", avg, nn, phs, k, True, n=nn, phs=phs)
    R.case("extra", extra, [rr.randint(0, 9) for _ in range(k % 4)])


def batch(n, which):
    """one fitness for each phenome of a large batch, in order"""
    P = [np.array([q % 7, q % 3]) for q in range(n)]
    p = [FunctionProblem(lambda x: float(10 * x[0] + x[1]), maximize=True), FitnessOffsetProblem(FunctionProblem(lambda x: float(10 * x[0] + x[1]) - 5, maximize=True), 5),
         AverageFitnessProblem(FunctionProblem(lambda x: float(10 * x[0] + x[1]), maximize=True), 3)][which]
    return dict(got=[drv.num(v) for v in p.evaluate_multiple(P)])


for n in (1, 100, 1300):
    for which in range(3):
        R.case("batch", batch, n, which, n=n)
R.close()
