"""A recorded store of individuals: representations, operators and snapshots shared by the P02/P03 drivers."""
import copy, itertools
import numpy as np
import drv
from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.binary_rep.decoders import BinaryToIntDecoder, BinaryToRealDecoder
from leap_ec.segmented_rep.decoders import SegmentedDecoder
from leap_ec.problem import ScalarProblem, FunctionProblem
from leap_ec import ops
from leap_ec.binary_rep import ops as bops
from leap_ec.int_rep import ops as iops
from leap_ec.real_rep import ops as rops
from leap_ec.segmented_rep import ops as sops

CLASSES = [Individual, RobustIndividual, WholeEvaluatedIndividual, DistributedIndividual]


class Keys:
    def __init__(self):
        self.d = {}

    def canon(self, x):
        if isinstance(x, (np.ndarray, list, tuple)):
            return tuple(self.canon(y) for y in x)
        return float(x)

    def __call__(self, x):
        c = self.canon(x)
        return self.d.setdefault(c, len(self.d) + 1)


class World:
    def __init__(self, rep, cls, rng, batch=False, big=1):
        self.big = big if rep in ("bin", "int", "real", "nested", "segreal", "seg") else 1
        self.rep, self.cls, self.rng = rep, cls, rng
        self.keys, self.log, self.chunks = Keys(), [], []
        self.inds, self.uu, self.steps = [], {}, []
        w = self

        class Fn(ScalarProblem):
            def evaluate(self, phenome, *a, **k):
                key = w.keys(phenome)
                w.log.append(key)
                return key

        class Batch(Fn):
            def evaluate_multiple(self, phenomes, *a, **k):
                w.chunks.append(len(phenomes))
                return [self.evaluate(p) for p in phenomes]

        self.problem = Batch(True) if batch else Fn(True)
        self.decoder = {"bin": IdentityDecoder, "bin2int": lambda: BinaryToIntDecoder(2, 1, 1), "bin2real": lambda: BinaryToRealDecoder((2, 0., 3.), (2, -1., 2.)),
                        "int": IdentityDecoder, "real": IdentityDecoder, "seg": IdentityDecoder, "segdec": lambda: SegmentedDecoder(BinaryToIntDecoder(2, 2)),
                        "segreal": IdentityDecoder, "nested": IdentityDecoder}[rep]()
        self.kind = {"bin": "bin", "bin2int": "bin", "bin2real": "bin", "segdec": "segbin", "seg": "segbin"}.get(rep, rep)
        self.snap0 = None

    def genome(self):
        r = self.rng
        k = self.kind
        if k == "bin":
            return np.array([r.random() < .5 for _ in range(4 * self.big)]) if r.random() < .5 else np.array([r.randint(0, 1) for _ in range(4 * self.big)])
        if k == "int":
            return np.array([r.randint(0, 9) for _ in range(4 * self.big)])
        if k == "real":
            return np.array([r.uniform(-1, 1) for _ in range(4 * self.big)])
        if k == "segbin":
            return [np.array([r.randint(0, 1) for _ in range(4)]) for _ in range(3 * self.big)]
        if k == "segreal":
            return [np.array([r.uniform(-1, 1) for _ in range(3)]) for _ in range(3 * self.big)]
        if k == "nested":
            return [[r.randint(0, 9) for _ in range(2)] for _ in range(4 * self.big)]

    def create(self, n):
        for _ in range(n):
            self.inds.append(self.cls(self.genome(), self.decoder, self.problem))
        self.snap0 = self.snap()

    def uid(self, u):
        return self.uu.setdefault(u, len(self.uu) + 1)

    def snap(self):
        out = []
        for k, x in enumerate(self.inds):
            ph = x.decoder.decode(copy.deepcopy(x.genome)) if x.decoder is not None else x.genome
            out.append(dict(id=k + 1, uu=self.uid(x.uuid), g=self.keys(x.genome), p=self.keys(ph), fit=drv.num(x.fitness),
                            par=sorted(self.uid(u) for u in x.parents), cls=type(x).__name__, dec=1 if x.decoder is self.decoder else 2,
                            prob=1 if x.problem is self.problem else 2, bid=getattr(x, "birth_id", -1 - k)))
        return out

    def ident(self, x):
        for k, y in enumerate(self.inds):
            if x is y:
                return k + 1
        return 0

    def record(self, name, concrete, inn, out, chunkmax=10 ** 6):
        ids = []
        for x in out:
            if not self.ident(x):
                self.inds.append(x)
            ids.append(self.ident(x))
        self.steps.append(dict(op=name, concrete=concrete, inn=[self.ident(x) for x in inn], out=ids, log=self.log, chunks=self.chunks, chunkmax=chunkmax, snap=self.snap()))
        self.log, self.chunks = [], []
        # the store must not be changed by our own looking
    def variators(self):
        k = self.kind
        V = {"bin": [("bitflip-p", bops.mutate_bitflip(probability=.5)), ("bitflip-e", bops.mutate_bitflip(expected_num_mutations=2))],
             "int": [("randint", iops.mutate_randint(bounds=[(0, 9)] * (4 * self.big), probability=.5)), ("randint-e", iops.mutate_randint(bounds=[(0, 9)] * (4 * self.big), expected_num_mutations=2)),
                     ("binomial", iops.mutate_binomial(std=2, bounds=[(0, 9)] * (4 * self.big), expected_num_mutations=3))],
             "real": [("gaussian", rops.mutate_gaussian(std=.5, expected_num_mutations=2)), ("gaussian-iso", rops.mutate_gaussian(std=.5, expected_num_mutations="isotropic", bounds=(-1, 1)))],
             "segbin": [("apply_mutation", sops.apply_mutation(mutator=bops.genome_mutate_bitflip, expected_num_mutations=4)),
                        ("add", sops.add_segment(seq_initializer=lambda: np.array([1, 1, 0, 1]), probability=.8)), ("add-append", sops.add_segment(seq_initializer=lambda: np.array([1, 1, 0, 1]), probability=.8, append=True)),
                        ("remove", sops.remove_segment(probability=.8)), ("copy", sops.copy_segment(probability=.8)), ("copy-append", sops.copy_segment(probability=1.0, append=True))],
             "segreal": [("apply_mutation", sops.apply_mutation(mutator=rops.genome_mutate_gaussian(std=1.0), expected_num_mutations=3)),
                         ("remove", sops.remove_segment(probability=.8)), ("copy", sops.copy_segment(probability=.8)),
                         ("add", sops.add_segment(seq_initializer=lambda: np.array([.5, .25, .125]), probability=.8))],
             "nested": [("remove", sops.remove_segment(probability=.8)), ("copy", sops.copy_segment(probability=.8)), ("add", sops.add_segment(seq_initializer=lambda: [1, 2], probability=.8))]}
        return V[k]

    def crossers(self):
        L = [("nary2", ops.NAryCrossover(num_points=2)), ("nary1", ops.NAryCrossover(num_points=1)), ("nary-p", ops.NAryCrossover(num_points=1, p_xover=.5))]
        if self.kind in ("bin", "int", "real"):
            L += [("uniform", ops.UniformCrossover(p_swap=.5)), ("uniform-p", ops.UniformCrossover(p_swap=.5, p_xover=.5))]
        return L

    # -- steps -----------------------------------------------------------
    def vary(self, x, k):
        V = self.variators()
        n, op = V[k % len(V)]
        out = [next(op(iter([x])))]
        self.record("vary", n, [x], out)

    def cross(self, x, y, k):
        X = [c for c in self.crossers() if "nary2" not in c[0] or (len(x.genome) >= 2 and len(y.genome) >= 2)]
        n, op = X[k % len(X)]
        it = op(iter([x, y]))
        out = [next(it), next(it)]
        self.record("cross", n, [x, y], out)

    def clone(self, x, k):
        out = [x.clone()] if k % 2 else [next(ops.clone(iter([x])))]
        self.record("clone", "method" if k % 2 else "op", [x], out)

    def poke(self, x):
        for depth, y in enumerate([x.genome] + (list(x.genome) if isinstance(x.genome, list) else [])):
            if isinstance(y, np.ndarray):
                y[:] = 1 - y[::-1]
            elif isinstance(y, list) and y:
                if isinstance(y[0], int):
                    y[0] += 1
                else:
                    y.reverse()
        x.parents.add(("poked", len(self.steps)))
        self.record("poke", "poke", [x], [x])

    def eval(self, xs, k):
        m = k % 4
        if m == 0 and len(xs) == 1:
            xs[0].evaluate()
            out = xs
            self.record("eval", "method", xs, out)
        elif m == 1:
            out = type(xs[0]).evaluate_population(xs)
            self.record("eval", "population", xs, out)
        elif m == 2:
            it = ops.evaluate(iter(list(xs)))
            out = [next(it) for _ in xs]
            self.record("eval", "op", xs, out)
        else:
            out = ops.grouped_evaluate(list(xs))
            self.record("eval", "grouped", xs, out)

    def geval(self, xs, chunk):
        out = ops.grouped_evaluate(list(xs), max_individuals_per_chunk=chunk)
        self.record("eval", f"grouped{chunk}", xs, out, chunkmax=chunk)


REPS = ["bin", "bin2int", "bin2real", "int", "real", "seg", "segdec", "segreal", "nested"]


def run_program(prog, rep, cls, rng, k, poke=False, big=1):
    w = World(rep, cls, rng, batch=bool(k % 2), big=big)
    w.create(2 if big == 1 else 10)
    last = w.inds[0]
    for n, s in enumerate(prog):
        x = last if s["t"] == 0 else w.inds[(n + k) % len(w.inds)]
        c = k + n
        if s["op"] == "clone":
            before = x
            w.clone(x, c)
            last = w.inds[-1]
            if poke:
                w.poke(last if c % 3 else before)
        elif s["op"] == "vary":
            w.vary(x, c)
        elif s["op"] == "cross":
            o = [y for y in w.inds if y is not last]
            y = o[(k + n) % len(o)]
            w.cross(*((x, y) if c % 2 else (y, x)), c // 2)
        elif s["op"] == "eval":
            w.eval([x] if c % 3 else list(w.inds), c)
        elif s["op"] == "geval":
            xs = list(w.inds)
            if c % 2:
                xs.reverse()
            w.geval(xs, 1 + (c % 3 if big == 1 else rng.choice([0, 1, 2, 3, 4, 6, 8, 9, 10, 30])))
    return dict(rep=rep, snap0=w.snap0, steps=w.steps)
