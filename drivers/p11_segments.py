import drv
import numpy as np
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem
from leap_ec.segmented_rep import ops as sops
from leap_ec.segmented_rep.initializers import create_segmented_sequence
R = drv.Rec()
PROB = FunctionProblem(lambda x: 0, maximize=True)


def aliased(g):
    """Do two segments of the genome share storage?"""
    for a in range(len(g)):
        for b in range(a):
            if g[a] is g[b] or (isinstance(g[a], np.ndarray) and isinstance(g[b], np.ndarray) and np.shares_memory(g[a], g[b])):
                return True
    return False


class W:
    def __init__(self, form, n, width=2):
        self.form, self.next, self.pad = form, 0, [0] * (width - 2)
        self.made = []
        self.ind = Individual([self.seg() for _ in range(n)], IdentityDecoder(), PROB)
        self.other = Individual(self.ind.genome, IdentityDecoder(), PROB).clone()   # a bystander: the same genome, cloned
        self.made = []

    def seg(self):
        self.next += 1
        v = [self.next * 10, self.next * 10 + 1] + self.pad
        self.made.append(v)
        return np.array(v) if self.form == "array" else list(v)

    def toks(self, g):
        return [[int(x) for x in s] for s in g]

    def step(self, name, prob, k):
        before, bystander = self.toks(self.ind.genome), self.toks(self.other.genome)
        self.made, self.ind.fitness = [], 3.0
        p = {0: 0.0, 1: 1.0, 2: .5}[prob]
        rec = dict(op=name, prob=prob, before=before)
        ins, outs, who, share = [], [], [], []

        def mut(j):
            def f(segment, expected_num_mutations=None):
                ins.append([int(x) for x in segment])
                who.append(j)
                share.append(-1 if expected_num_mutations is None else int(round(expected_num_mutations * len(before) * 1000)))
                self.next += 1
                new = [self.next * 10 + 5, self.next * 10 + 6] + self.pad
                outs.append(new)
                return np.array(new) if self.form == "array" else list(new)
            return f
        if name in ("add", "addend"):
            op = sops.add_segment(seq_initializer=self.seg, probability=p, **({"append": True} if name == "addend" else {} if k % 2 else {"append": False}))
        elif name in ("copy", "copyend"):
            op = sops.copy_segment(probability=p, **({"append": True} if name == "copyend" else {} if k % 2 else {"append": False}))
        elif name == "remove":
            op = sops.remove_segment(probability=p)
        elif k % 2:
            rec["op"], rec["expected"] = "apply", [1000, 2000, 500][k % 3]
            op = sops.apply_mutation(mutator=mut(1), expected_num_mutations=rec["expected"] / 1000) if rec["expected"] != 1000 or k % 4 == 1 else sops.apply_mutation(mutator=mut(1))
        else:
            rec["op"], rec["expected"] = "each", -1
            op = sops.segmented_mutate(mutator_functions=[mut(j + 1) for j in range(len(before))])
        y = next(op(iter([self.ind])))
        rec.update(after=self.toks(y.genome), made=self.made, aliased=aliased(y.genome), same=y is self.ind and self.toks(self.other.genome) == bystander,
                   fit=drv.num(y.fitness), ins=ins, outs=outs, who=who, share=share)
        rec.setdefault("expected", 0)
        return rec


def run(seq, n, form, k, width=2):
    w = W(form, n, width)
    return dict(steps=[w.step(o, [1, 1, 2, 0][(k + j * 3) % 4], k + j) for j, o in enumerate(seq)])


for k, g in enumerate(R.gen()):
    R.case("ops", run, g["ops"], g["len"], ["array", "list"][k % 2], k)
for k in range(1500 if R.thorough else 150):
    seq = [R.rng.choice(["add", "addend", "copy", "copyend", "remove", "apply"]) for _ in range(8)]
    R.case("ops", run, seq, R.rng.randint(1, 4), ["array", "list"][k % 2], R.rng.randint(0, 999))

for k in range(300 if R.thorough else 30):      # long genomes, long histories
    seq = [R.rng.choice(["add", "addend", "copy", "copyend", "remove", "apply"]) for _ in range(25)]
    R.case("ops", run, seq, R.rng.choice([9, 16, 30]), ["array", "list"][k % 2], R.rng.randint(0, 999), [2, 2, 14, 40][k % 4] if k % 3 == 0 else 2)


def rate(name, p, n, L):
    hits, places = 0, None
    size = {"add": L + 1, "copy": L + 1, "remove": L, "addend": 1, "copyend": 1, "copysrc": L}[name]
    places = [0] * size
    for _ in range(n):
        x = Individual([np.array([j]) for j in range(L)], IdentityDecoder(), PROB)
        if name.startswith("add"):
            op = sops.add_segment(seq_initializer=lambda: np.array([99]), probability=p, **(dict(append=True) if name == "addend" else {}))
        elif name.startswith("copy"):
            op = sops.copy_segment(probability=p, **(dict(append=True) if name in ("copyend", "copysrc") else {}))
        else:
            op = sops.remove_segment(probability=p)
        g = [int(s[0]) for s in next(op(iter([x]))).genome]
        if g == list(range(L)):
            continue
        hits += 1
        if name == "remove":
            places[[j for j in range(L) if j not in g][0]] += 1
        elif name == "add":
            places[g.index(99)] += 1
        elif name == "copysrc":
            places[g[-1]] += 1
        elif name == "copy":
            pass
        else:
            places[0] += 1
    if name == "copy":
        # the place of a copy next to its original is ambiguous; count only the total
        places = [hits]
    return dict(hits=hits, places=places)


for name in ("add", "addend", "copy", "copyend", "copysrc", "remove"):
    for pn, pd in ((1, 2), (1, 4), (1, 1)):
        for L in (2, 4, 12):
            n = 4000 if pn < pd else 3000
            R.case("rate", rate, name, pn / pd, n, L, n=n, pn=pn, pd=pd, op=name)


def places(n, L):
    """outcomes of copying a random segment to a random place"""
    out = {}
    for _ in range(n):
        x = Individual([np.array([j + 1]) for j in range(L)], IdentityDecoder(), PROB)
        g = tuple(int(s[0]) for s in next(sops.copy_segment(iter([x]), probability=1.0)).genome)
        out[g] = out.get(g, 0) + 1
    return dict(outs=[[list(g), c] for g, c in out.items()])


for L in (1, 2, 3):
    R.case("copyplace", places, 4000, L, n=4000, len=L)


def create(length, want, form):
    made = []

    def init():
        v = [len(made) * 2, R.rng.randint(0, 50)]
        made.append(v)
        return np.array(v) if form == "array" else list(v)
    mkg = create_segmented_sequence(length, init)
    mkg()
    del made[:]
    g = mkg()
    return dict(segs=[[int(x) for x in s] for s in g], made=made, aliased=aliased(g))


for L in (1, 2, 3, 4, 5, 6, 20, 75):
    for form in ("array", "list"):
        R.case("create", create, L, L, form, want=L)
        c = {"n": 0}

        def drawn():
            c["n"] += 1
            return L if c["n"] == 2 else L + 3      # drawn anew for every genome
        R.case("create", create, drawn, L, form, want=L)
R.close()
