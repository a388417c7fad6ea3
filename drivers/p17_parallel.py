import fakedask
import cluster, drv, mkd, logging, os, platform, time
import numpy as np, cloudpickle
from leap_ec import ops
from leap_ec.individual import RobustIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.distrib import synchronous
R = drv.Rec()
logging.disable(logging.CRITICAL)
LOG = logging.getLogger("verif.worker")


def tok(x):
    return int(x.genome[0])


def run(n, order, bad, style, client=None, pids=None):
    """style: which entry point, class, worker logging, transport"""
    ctx = {"leap": {"distrib": {"non_viable": 0}}}
    vals = [(k * 37 + style) % 23 for k in range(1, n + 1)]
    calls = []

    def fn(ph):
        calls.append(int(ph[0]))
        if int(ph[0]) in bad:
            raise mkd.BOOM[int(ph[0]) % len(mkd.BOOM)]("planned")
        return float(vals[int(ph[0]) - 1])
    remote = client is not None
    prob = mkd.PlainProblem([0.0] + [float(v) for v in vals], set(bad), maximize=style % 2 == 0, delay=.002) if remote else mkd.RegProblem(fn, maximize=style % 2 == 0)
    cls = [DistributedIndividual, RobustIndividual][(style // 2) % 2]
    mk = lambda k: cls(np.array([k]), IdentityDecoder(), prob)
    ref = [mk(k) for k in range(1, n + 1)]
    serial = [drv.num(x.evaluate()) for x in ref]
    calls.clear()
    inds = [mk(k) for k in range(1, n + 1)]
    if style % 4 in (1, 2):      # evaluated before, somewhere else, long ago, and then it failed
        for x in inds[::2]:
            x.start_eval_time, x.stop_eval_time, x.hostname, x.pid = 1.0, 2.0, "elsewhere", -5
            if style % 8 > 3:
                x.is_viable, x.exception, x.fitness = False, ValueError("old"), np.nan
    uu = {x.uuid: k + 1 for k, x in enumerate(inds)}
    seq = list(order)

    def nxt(pend):
        t = seq.pop(0) if seq else 0
        for k, f in enumerate(pend):
            if tok(f.args[0]) == t:
                return k
        return 0
    pick = client if remote else fakedask.Client(nxt, pickled=style % 3 == 1, dumps=cloudpickle.dumps)
    fakedask.WORKER[0] = fakedask.Worker(LOG if style % 5 == 0 else None)
    fakedask.ACTIVE[0] = not remote
    taken = [0]

    def source():
        for x in inds + [mk(99) for _ in range(3)]:
            taken[0] += 1
            yield x
    t0 = time.time()
    try:
        if style % 2:
            out = synchronous.eval_pool(source(), client=pick, size=n, context=ctx) if style % 4 == 1 else synchronous.eval_pool(client=pick, size=n)(source())
        else:
            taken[0] = n
            out = synchronous.eval_population(list(inds), client=pick, context=ctx) if style % 4 else synchronous.eval_population(client=pick)(list(inds))
    except fakedask.Unsupported:
        return dict(kind="skipped")
    finally:
        fakedask.ACTIVE[0] = False
    t1 = time.time()

    def stamp(x):
        try:
            return bool(t0 - .5 <= x.start_eval_time <= x.stop_eval_time <= t1 + .5 and x.hostname == platform.node() and x.pid in (pids or [os.getpid()]))
        except Exception:
            return False
    return dict(vals=vals, bad=list(bad), serial=serial, taken=taken[0], list=isinstance(out, list), calls=calls, counted=not remote,
                out=[dict(tok=tok(x), uid=uu.get(x.uuid, 0), fit=drv.num(x.fitness), viable=bool(getattr(x, "is_viable", True)), stamp=stamp(x)) for x in out])


def again(toks, style, client):
    """the same individual may be listed (or handed in) more than once; a noisy problem is then sampled each time"""
    prob = mkd.CountingProblem()
    one = {t: DistributedIndividual(np.array([t]), IdentityDecoder(), prob) for t in toks}
    mkd.COUNT.clear()
    if style % 2:
        out = synchronous.eval_pool(iter([one[t] for t in toks]), client=client, size=len(toks), context={"leap": {"distrib": {"non_viable": 0}}})
    else:
        out = synchronous.eval_population([one[t] for t in toks], client=client, context={"leap": {"distrib": {"non_viable": 0}}})
    return dict(calls=list(mkd.COUNT), out=[tok(x) for x in out])


G = R.gen()
for j, g in enumerate(G):
    R.case("sync", run, g["n"], g["order"], g["bad"], j)
for j in range(1500 if R.thorough else 200):
    rr = R.rng
    n = rr.randint(5, 20)
    o = list(range(1, n + 1))
    rr.shuffle(o)
    R.case("sync", run, n, o, sorted(rr.sample(range(1, n + 1), rr.randint(0, n))), j)
for j in range(60 if R.thorough else 12):        # large batches
    n = R.rng.choice([40, 75, 130])
    o = list(range(1, n + 1))
    R.rng.shuffle(o)
    R.case("sync", run, n, o, sorted(R.rng.sample(range(1, n + 1), R.rng.choice([0, 1, n // 3, n]))), j)
for procs in ([False, True] if R.thorough else [False]):
    with cluster.Real(R, procs) as rc:
        pids = list(rc.client.run(os.getpid).values()) if procs and rc.client is not None else None
        for j in range(24 if R.thorough else 6):
            rr = R.rng
            n = rr.randint(1, 12) if j else 40
            if not procs:
                toks = [rr.randint(1, 3) for _ in range(rr.randint(2, 6))]
                rc.case("again", again, toks, j, rc.client, toks=toks)
            rc.case("sync", run, n, [], sorted(rr.sample(range(1, n + 1), rr.randint(0, n))), j, rc.client, pids)
R.close()
