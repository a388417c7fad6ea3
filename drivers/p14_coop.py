import csv, io
import drv
import numpy as np
from leap_ec import ops
from leap_ec.individual import Individual, WholeEvaluatedIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem, CooperativeProblem, concat_combine
R = drv.Rec()
SEL = dict(random=ops.random_selection, cyclic=ops.cyclic_selection, naive=ops.naive_cyclic_selection, tournament=ops.tournament_selection(k=2))


def value(c):
    h = 5
    for t in c:
        h = (h * 31 + t * 17 + 3) % 97
    return h


class Shift(IdentityDecoder):
    """the decoder of whole solutions"""
    def decode(self, genome, *a, **k):
        return np.asarray(genome) + 1000


def run(g, j):
    R.seed("p14", j)
    gen = j % 4
    ctx = {"leap": {"distrib": {"non_viable": 0}, "generation": gen, "current_subpopulation": g["cur"] - 1}}
    log = []

    def f(ph):
        c = [int(t) - shift for t in ph]
        v = None if g.get("lost") and len(log) == g["lost"] else value(c)      # one trial may fail
        log.append(dict(c=c, v=drv.NAN if v is None else v))
        return float("nan" if v is None else v)
    full = FunctionProblem(f, maximize=True)
    picks = [[] for _ in g["sizes"]]
    stream = io.StringIO() if g["log"] else None

    def selector(pop):
        s = [k for k, p in enumerate(subs) if p is pop]
        for x in SEL[g["sel"]](pop):
            if s:
                picks[s[0]].append(int(x.genome[0]))
            yield x
    custom = j % 3 == 0
    shift = 1000 if j % 3 and j % 2 and g["form"] != "op" else 0
    if g["form"] == "op":
        prob = full
        kw = dict(combine=lambda cs: Individual(np.array([c.genome[0] for c in cs]), IdentityDecoder(), full)) if custom else dict(combine=concat_combine) if j % 3 == 1 else {}
        op = ops.CooperativeEvaluate(num_trials=g["trials"], collaborator_selector=selector, log_stream=stream, context=ctx, **kw)
        cls = Individual
    else:
        kw = dict(combine_genomes=lambda gs: np.array([x[0] for x in gs]), combined_decoder=IdentityDecoder()) if custom else dict(combined_decoder=Shift()) if shift else {}
        prob = CooperativeProblem(wrapped_problem=full, num_trials=g["trials"], collaborator_selector=selector, log_stream=stream, context=ctx, **kw)
        cls = WholeEvaluatedIndividual
    tok = [0]

    def mk(fit):
        tok[0] += 1
        x = cls(np.array([tok[0]]), IdentityDecoder(), prob)
        x.fitness = fit
        return x
    subs = [[mk(float(tok[0] % 7)) for _ in range(z)] for z in g["sizes"]]
    ctx["leap"]["subpopulations"] = subs
    inds = [mk(None) for _ in range(g["inds"])]
    if j % 5 == 0:        # a member of its own subpopulation is evaluated
        inds[0] = subs[g["cur"] - 1][0]
    fits = {}
    for p in subs:
        for x in p:
            fits[int(x.genome[0])] = drv.num(x.fitness)
    def snap():
        return [[(x.genome.tolist(), x.fitness if not any(x is y for y in inds) else 0, x.uuid, set(x.parents), x.problem is prob) for x in p] for p in subs]
    before = snap()
    lists = [list(p) for p in subs]
    if g["form"] == "op":
        it = op(iter(inds))
        out = [next(it) for _ in inds]
    elif g["form"] == "problem":
        it = ops.evaluate(iter(inds))
        out = [next(it) for _ in inds]
    elif g["form"] == "grouped":
        out = ops.grouped_evaluate(list(inds))
    else:
        out = ops.grouped_evaluate(list(inds), max_individuals_per_chunk=2)
    same = before == snap() and all(len(a) == len(b) and all(x is y for x, y in zip(a, b)) for a, b in zip(lists, subs)) \
        and ctx["leap"]["subpopulations"] is subs and all(x.genome.tolist() == [t] for x, t in zip(inds, [int(x.genome[0]) for x in inds]))
    res = []
    for x in inds:
        t = int(x.genome[0])
        mine = [l for l in log if len(l["c"]) >= g["cur"] and l["c"][g["cur"] - 1] == t]
        s = float(x.fitness) * g["trials"]
        res.append(dict(tok=t, combos=[l["c"] for l in mine], vals=[l["v"] for l in mine], fit=drv.NAN if s != s else int(round(s)) if abs(s - round(s)) < 1e-6 else drv.ODD))
    rows = []
    if g["log"]:
        stream.seek(0)
        for r in csv.DictReader(stream):
            comb = r["individual_type"] == "Combined Individual"
            rows.append(dict(gen=int(r["generation"]), sub=int(r["subpopulation"]), comb=comb, cs=-1 if comb else int(r["collaborator_subpopulation"]),
                             toks=[int(v) for v in r["genome"].strip("[]").replace(",", " ").split()], fit=drv.num(float(r["fitness"])) if r["fitness"] else drv.NONE))
    return dict(subs=[[int(x.genome[0]) for x in p] for p in subs], inds=res, picks=picks, combolog=log, outorder=[int(x.genome[0]) for x in out],
                untouched=bool(same), rows=rows, gen=gen, fits=[fits.get(k, drv.NONE) for k in range(1, tok[0] + 1)])


for j, g in enumerate(R.gen()):
    R.case("coop", run, g, j, cur=g["cur"], trials=g["trials"], log=g["log"], form=g["form"])
for j in range(300 if R.thorough else 40):       # larger ecosystems, more trials
    ns = R.rng.choice([2, 3, 4, 5, 6, 7, 9, 13])
    g = dict(sizes=[R.rng.choice([1, 2, 5, 9, 14] if j % 3 else [4]) for _ in range(ns)], cur=R.rng.randint(1, ns), trials=R.rng.choice([1, 3, 7, 12]), sel=R.rng.choice(list(SEL)),
             form=R.rng.choice(["op", "problem", "grouped", "chunked"]), log=R.rng.random() < .5, inds=R.rng.choice([1, 4, 9]))
    R.case("coop", run, g, j, cur=g["cur"], trials=g["trials"], log=g["log"], form=g["form"])
for j in range(80 if R.thorough else 20):       # one trial fails: the mean is not a number, and no other individual is touched by it
    ns = R.rng.choice([2, 3])
    g = dict(sizes=[R.rng.choice([1, 2, 4]) for _ in range(ns)], cur=R.rng.randint(1, ns), trials=R.rng.choice([1, 3, 5]), sel=R.rng.choice(list(SEL)),
             form=R.rng.choice(["op", "problem", "grouped", "chunked"]), log=False, inds=R.rng.choice([2, 4]))
    g["lost"] = R.rng.randrange(1, g["trials"] * g["inds"])
    R.case("coop", run, g, j, cur=g["cur"], trials=g["trials"], log=g["log"], form=g["form"])
R.close()
