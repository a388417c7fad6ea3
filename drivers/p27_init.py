import drv
import numpy as np
from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.representation import Representation
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem, ConstantProblem
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.int_rep.initializers import create_int_vector
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.segmented_rep.initializers import create_segmented_sequence
R = drv.Rec()
rr = R.rng


class Own(RobustIndividual):
    pass


CLS = dict(Individual=Individual, RobustIndividual=RobustIndividual, DistributedIndividual=DistributedIndividual, WholeEvaluatedIndividual=WholeEvaluatedIndividual, own=Own)
SEEN_IDS, SEEN_B, KEEP = set(), set(), []


def pop(n, cls, via, rep, style):
    K = CLS[cls]
    made = []
    base = dict(int=create_int_vector([(0, 9)] * 3), binary=create_binary_sequence(3), real=create_real_vector([(0, 1)] * 3), list=lambda: [1, 2, 3])[rep]

    def init():
        g = base()
        made.append(g)
        return g
    prob, dec = ConstantProblem(), IdentityDecoder()
    if via == "class":
        P = K.create_population(n, initialize=init, decoder=dec, problem=prob)
    else:
        r = Representation(initialize=init, decoder=dec, individual_cls=K)
        P = [r.create_individual(prob) for _ in range(n)] if via == "single" else r.create_population(n, problem=prob)
    KEEP.append(P)
    ids = [str(x.uuid) for x in P]
    for k, u in enumerate(ids):       # unique over everything created so far
        if u in SEEN_IDS:
            ids[k] = ids[0] if k else "seen"
        SEEN_IDS.add(u)
    births = [drv.num(x.birth_id) for x in P] if cls == "DistributedIndividual" else []
    for k, b in enumerate(births):
        if b in SEEN_B:
            births[k] = drv.BADT
    if any(b == drv.BADT for b in births):
        births = [drv.BADT, drv.BADT]
    SEEN_B.update(births)
    inds = [dict(genome=next((k + 1 for k, g in enumerate(made) if g is x.genome), 0), cls=type(x) is K, problem=x.problem is prob, decoder=x.decoder is dec, fit=drv.num(x.fitness), parents=len(x.parents)) for x in P]
    return dict(inds=inds, calls=len(made), ids=ids, objs=[id(x) for x in P] and [k for k in range(len({id(x) for x in P}))] + [0] * (len(P) - len({id(x) for x in P})), births=births, islist=isinstance(P, list))


def shared(gs):
    a = [g for g in gs if isinstance(g, np.ndarray)]
    return len({id(g) for g in a}) < len(a) or any(np.shares_memory(x, y) for x, y in zip(a[:50], a[1:50])) or any(np.shares_memory(a[0], y) for y in a[1:20])


def ints(bounds, make, N, binary):
    B = [tuple(b) for b in bounds]
    orig = list(B)
    f = make(B)
    gs = [f() for _ in range(N)]
    L = len(bounds)
    lenok = all(len(g) == L for g in gs)
    inb = lenok and all(b[0] <= v <= b[1] for g in gs for v, b in zip(g, bounds))
    types = all(isinstance(v, (int, np.integer)) or (isinstance(v, (bool, np.bool_)) and binary) or float(v).is_integer() and binary for g in gs[:300] for v in g)
    counts, joint, serial = [[]], [], []
    if inb:
        A = np.array([[int(v) for v in g] for g in gs])
        counts = [[int((A[:, l] == v).sum()) for v in range(b[0], b[1] + 1)] for l, b in enumerate(bounds)]
        for p in range(L):
            for q in range(p + 1, L):
                vals = [(u, v) for u in range(bounds[p][0], bounds[p][1] + 1) for v in range(bounds[q][0], bounds[q][1] + 1)]
                joint.append(dict(cells=len(vals), counts=[int(((A[:, p] == u) & (A[:, q] == v)).sum()) for u, v in vals]))
        for l in range(L):       # successive genomes
            w = range(bounds[l][0], bounds[l][1] + 1)
            x, y = A[0::2, l], A[1::2, l]
            serial.append(dict(cells=len(w) ** 2, n=len(y), counts=[int(((x[:len(y)] == u) & (y == v)).sum()) for u in w for v in w]))
    return dict(lenok=lenok, inb=bool(inb), types=bool(types), indep=not shared(gs), counts=counts, joint=joint, serial=serial, same=B == orig)


def reals(bounds, N):
    B = [tuple(b) for b in bounds]
    orig = list(B)
    f = create_real_vector(B)
    gs = [f() for _ in range(N)]
    L = len(bounds)
    lenok = all(len(g) == L for g in gs)
    inb = lenok and all(b[0] <= v <= b[1] for g in gs for v, b in zip(g, bounds))
    counts, joint = [[0] * 4] * L, []
    if inb:
        A = np.array(gs)
        U = np.array([(A[:, l] - b[0]) / (b[1] - b[0]) if b[1] > b[0] else A[:, l] * 0 for l, b in enumerate(bounds)]).T
        Q = np.minimum((U * 4).astype(int), 3)
        counts = [[int((Q[:, l] == v).sum()) for v in range(4)] for l in range(L)]
        for p in range(L):
            for q in range(p + 1, L):
                if bounds[p][0] < bounds[p][1] and bounds[q][0] < bounds[q][1]:
                    joint.append([int((((Q[:, p] > 1) * 2 + (Q[:, q] > 1)) == v).sum()) for v in range(4)])
    return dict(lenok=lenok, inb=bool(inb), indep=not shared(gs), counts=counts, joint=joint, same=B == orig)


def bulk(what, cells):
    """a hundred thousand genes: how many fell into each of the equally likely cells"""
    n, L = 100000, 500
    f = dict(binary=lambda: create_binary_sequence(L), int=lambda: create_int_vector([(-3, cells - 4)] * L), real=lambda: create_real_vector([(-2.5, 7.5)] * L))[what]()
    A = np.concatenate([np.asarray(f(), dtype=float) for _ in range(n // L)])
    k = A if what == "binary" else A + 3 if what == "int" else np.floor((A + 2.5) / 10 * cells)
    return dict(counts=[int((k == c).sum()) for c in range(cells)], total=n)


def segmented(n, vary):
    c, lens, made = [0], [], []

    def length():
        lens.append((n + len(lens) * 2) % 5)
        return lens[-1]

    def one():
        s = np.array([len(made)])
        made.append(s)
        return s
    f = create_segmented_sequence(length if vary else n, one)
    gs = [f() for _ in range(4)]
    return dict(got=[len(g) for g in gs], want=lens if vary else [n] * 4, ids=[next((k + 1 for k, s in enumerate(made) if s is x), 0) for g in gs for x in g])


N = 12000 if R.thorough else 4000
for k, c in enumerate(R.gen()):
    w = c["what"]
    if w == "pop":
        R.case("pop", pop, c["n"], c["cls"], c["via"], c["rep"], k, n=c["n"], cls=c["cls"], via=c["via"])
    elif w == "int":
        R.case("ints", ints, c["bounds"], create_int_vector, N, False, bounds=c["bounds"], N=N)
    elif w == "binary":
        R.case("ints", ints, [[0, 1]] * c["len"], lambda b: create_binary_sequence(len(b)), N, True, bounds=[[0, 1]] * c["len"], N=N)
    elif w == "real":
        R.case("reals", reals, c["bounds"], N, bounds=c["bounds"], N=N)
    else:
        R.case("segmented", segmented, c["len"], c["vary"])
for n in (37, 150):
    for cls in CLS:
        for via in ("class", "representation", "single"):
            R.case("pop", pop, n, cls, via, rr.choice(["int", "binary", "real", "list"]), n, n=n, cls=cls, via=via)


def long(kind, L, n):
    """long genomes: length, range, type, and the share of each quarter of the domain over all genes"""
    b = [(-(k % 7) * 100, 50 + k * 10) for k in range(L)]
    f = dict(binary=lambda: create_binary_sequence(L), int=lambda: create_int_vector(b), real=lambda: create_real_vector(b))[kind]()
    gs = [f() for _ in range(n)]
    if kind == "binary":
        b = [(0, 1)] * L
    q = [0] * 4
    lenok = all(len(g) == L for g in gs)
    inb = lenok and all(lo <= v <= hi for g in gs for v, (lo, hi) in zip(g, b))
    stuck = 0
    if inb:
        for k, (lo, hi) in enumerate(b):
            col = [float(g[k]) for g in gs]
            stuck += len(set(col)) == 1
            for v in col:
                q[min(3, int((v - lo) * 4 / (hi - lo + (kind != "real"))))] += 1
    return dict(lenok=lenok, inb=bool(inb), q=q, stuck=stuck, indep=not shared(gs))


for kind in ("binary", "int", "real"):
    for L in (64, 200):
        R.case("long", long, kind, L, 60, total=60 * L, binary=kind == "binary")
for what, cells in (("binary", 2), ("int", 2), ("int", 3), ("int", 5), ("int", 10), ("real", 2), ("real", 10)):
    for _ in range(6 if R.thorough else 2):
        R.case("bulk", bulk, what, cells, cells=cells)
R.close()
