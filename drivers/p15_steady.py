import fakedask
import cluster, drv, mkd, logging
import numpy as np, cloudpickle
from leap_ec import ops
from leap_ec.individual import RobustIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.representation import Representation
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.distrib.asynchronous import steady_state, greedy_insert_into_pop, tournament_insert_into_pop
from leap_ec.util import wrap_curry
R = drv.Rec()
logging.disable(logging.CRITICAL)
skipped = [0]


def tok(x):
    return int(x.genome[0])


def run(cfg, sched, style, client=None, failset=()):
    """One asynchronous run; with client=None the completion schedule `sched` is imposed."""
    ctx = {"leap": {"distrib": {"non_viable": 0}}}
    steps, first, calls, cur = [], [], [], {"f": False, "started": False}
    n = [0]
    R.seed("p15", style)

    def fresh_tok():
        n[0] += 1
        return np.array([n[0]])

    def fn(ph):
        t = int(ph[0])
        calls.append(t)
        if client is not None:
            import time
            time.sleep(.002 * ((t * 7 + style) % 4))
        if cur["f"] if client is None else (t in failset):
            raise mkd.BOOM[t % len(mkd.BOOM)]("planned")
        return float((t * 37 + style) % 11)
    prob = mkd.RegProblem(fn, maximize=style % 2 == 0)
    # initial individuals get tokens 1..init, offspring the following ones, in order of creation
    cls = [DistributedIndividual, RobustIndividual][style % 3 == 2]
    rep = Representation(initialize=fresh_tok, individual_cls=cls, decoder=IdentityDecoder())
    pos = [0]

    def births():
        return drv.num(ctx["leap"].get("births"))

    def order(pend):
        s = sched[pos[0]] if pos[0] < len(sched) else dict(k=1, f=False)
        pos[0] += 1
        cur["f"] = s["f"]
        cur["b"] = births()
        cur["started"] = True
        return min(s["k"], len(pend)) - 1

    def on(ev, f):
        if ev == "submit":
            t = tok(f.args[0])
            (steps[-1]["subs"] if steps else first).append(t)
        elif ev == "complete":
            x = f.result()
            steps.append(dict(id=tok(x), f=not getattr(x, "is_viable", True), births=cur["b"], probes=[], inserts=[], breeds=[], subs=[]))

    def step(x):
        """with a real cluster the completion is first seen by the probe"""
        if client is not None:
            steps.append(dict(id=tok(x), f=not x.is_viable, births=0, probes=[], inserts=[], breeds=[], subs=[]))
    fk = client if client is not None else fakedask.Client(order, on, pickled=style % 4 == 1, dumps=cloudpickle.dumps)
    real = [greedy_insert_into_pop, tournament_insert_into_pop][style % 2]

    def inserter(x, pop, size):
        steps[-1]["inserts"].append(tok(x))
        return real(x, pop, size)

    def probe(x):
        step(x)
        steps[-1]["probes"].append(tok(x))
        assert x.fitness is not None
    pops = []

    def tin(pop):
        steps[-1]["breeds"].append(dict(births=births(), pop=[tok(x) for x in pop], fresh=all(x.fitness is not None for x in pop), ins=len(steps[-1]["inserts"])))
        return pop

    @wrap_curry
    @ops.iteriter_op
    def retoken(it):
        while True:
            try:
                x = next(it)
            except StopIteration:
                return
            x.genome = fresh_tok()
            x.fitness = None
            yield x
    sel = [ops.random_selection, ops.tournament_selection(k=2), ops.cyclic_selection][style % 3]
    pipeline = [tin, sel, ops.clone, retoken, ops.pool(size=cfg["m"])]
    kw = {}
    probed = style % 5 != 0 or client is not None
    if probed:
        kw["evaluated_probe"] = probe
    if style % 3 == 0:
        kw["pop_probe"] = lambda pop: pops.append([tok(x) for x in pop])
    if cfg["count"] or style % 2:
        kw["count_nonviable"] = cfg["count"]
    fakedask.ACTIVE[0] = client is None
    try:
        pop = steady_state(fk, max_births=cfg["max"], init_pop_size=cfg["init"], pop_size=cfg["cap"], representation=rep, problem=prob,
                           offspring_pipeline=pipeline, inserter=inserter, context=ctx, **kw)
    except fakedask.Unsupported:
        skipped[0] += 1
        return dict(kind="skipped")
    finally:
        fakedask.ACTIVE[0] = False
    popok = isinstance(pop, list) and len(pop) == min(cfg["cap"], len(steps)) and len(set(tok(x) for x in pop)) == len(pop) and (not pops or pops[-1] == [tok(x) for x in pop]) \
        and (style % 3 != 0 or len(pops) == len(steps))
    return dict(first=first, steps=steps, births=births(), calls=calls, popok=popok, probed=probed, exact=client is None)


G = R.gen()
cap = 12000 if R.thorough else 2500
R.rng.shuffle(G)
for j, g in enumerate(G[:cap]):
    cfg = dict(g["cfg"], cap=[1, 2, 3][j % 3])
    R.case("async", run, cfg, g["sched"], j, cfg=cfg)
# longer random schedules with more failures
for j in range(3000 if R.thorough else 300):
    rr = R.rng
    cfg = dict(init=rr.randint(1, 7), cap=rr.randint(1, 6), max=rr.randint(0, 15), m=rr.choice([1, 1, 1, 2, 3]), count=rr.random() < .5)
    pf = rr.choice([0, .2, .5, .8])
    sched = [dict(k=rr.randint(1, 9), f=rr.random() < pf) for _ in range(40)]
    R.case("async", run, cfg, sched, j, cfg=cfg)
for j in range(150 if R.thorough else 25):       # hundreds of births
    rr = R.rng
    cfg = dict(init=rr.choice([5, 20, 40]), cap=rr.choice([4, 20, 50]), max=rr.choice([40, 90, 150]), m=rr.choice([1, 1, 2, 5]), count=rr.random() < .5)
    pf = rr.choice([0, .1, .4])
    sched = [dict(k=rr.randint(1, 50), f=rr.random() < pf) for _ in range(600)]
    R.case("async", run, cfg, sched, j, cfg=cfg)
# a real in-process dask cluster
with cluster.Real(R) as rc:
    for j in range(20 if R.thorough else 4):
        cfg = dict(init=3 + j % 3, cap=3, max=5 + j % 4, m=1, count=j % 2 == 0)
        rc.case("async", run, cfg, [], 2 + j * 7, rc.client, {2, 5} if j % 3 else set(), cfg=cfg)
R.close()
