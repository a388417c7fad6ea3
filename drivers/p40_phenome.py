import drv
import numpy as np
from leap_ec import ops
from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.decoder import Decoder
from leap_ec.problem import ScalarProblem
R = drv.Rec()
CLASSES = [Individual, RobustIndividual, DistributedIndividual, WholeEvaluatedIndividual]


class Dec(Decoder):
    def __init__(self):
        self.calls = []

    def decode(self, genome, *a, **k):
        self.calls.append(int(genome[0]))
        return int(10 * genome[0] + 1)


class Prob(ScalarProblem):
    def __init__(self):
        super().__init__(maximize=True)
        self.seen = []

    def evaluate(self, phenome, *a, **k):
        if isinstance(phenome, Individual):
            phenome = phenome.phenome
        self.seen.append(int(phenome))
        return 7 * phenome


def evaluate(ind, how):
    if how == 0:
        return ind.evaluate()
    if how == 1:
        next(ops.evaluate(iter([ind])))
    else:
        type(ind).evaluate_population([ind])
    return ind.fitness


def run(seq, cls, how):
    dec, prob = Dec(), Prob()
    fam = [cls(np.array([1]), decoder=dec, problem=prob)]
    cur, fresh, steps = 0, 1, []
    for o in seq:
        dec.calls, prob.seen = [], []
        ind, k, v = fam[cur], cur + 1, 0
        if o == "assign":
            fresh += 1
            ind.genome, v = np.array([fresh]), fresh
        elif o == "inplace":
            fresh += 1
            ind.genome[0], v = fresh, fresh
        elif o == "decode":
            v = drv.num(ind.decode())
        elif o == "read":
            v = drv.num(ind.phenome)
        elif o == "set":
            v = 500 + fresh
            ind.phenome = v
        elif o == "eval":
            v = drv.num(evaluate(ind, how))
        elif o == "clone":
            fam.append(ind.clone())
            cur = len(fam) - 1
        elif o == "other":
            cur = (cur - 1) % len(fam)
        steps.append(dict(op=o, k=k, v=v, calls=list(dec.calls), seen=list(prob.seen), fam=[dict(g=int(x.genome[0]), fit=drv.num(x.fitness)) for x in fam]))
    return dict(steps=steps)


for j, g in enumerate(R.gen()):
    for c in (range(4) if R.thorough and j % 4 == 0 else [j % 4]):
        R.case("life", run, g["ops"], CLASSES[c], (j // 4 + c) % 3)
OPS = ["assign", "inplace", "decode", "read", "set", "eval", "clone", "other"]
for j in range(4000 if R.thorough else 600):
    R.case("life", run, [R.rng.choice(OPS) for _ in range(R.rng.randint(5, 14))], CLASSES[j % 4], j % 3)
for j in range(60 if R.thorough else 24):        # long lives of large families
    R.case("life", run, [R.rng.choice(OPS) for _ in range(R.rng.choice([30, 60]))], CLASSES[j % 4], j % 3)
R.close()
