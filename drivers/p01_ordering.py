"""P01: comparisons, max/min/sorted of Individuals on every generated population, value system and problem."""
import drv
import numpy as np
from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import (FunctionProblem, ConstantProblem, FitnessOffsetProblem, AverageFitnessProblem,
                             CooperativeProblem, AlternatingProblem)
from leap_ec import ops

R = drv.Rec()
inf, nan = float("inf"), float("nan")
# the k-th entry is a value for ordinal k-2 (ordinals -2..3), strictly increasing
SYS = {
    "int": [-2, -1, 0, 1, 2, 3],
    "float": [-3.5, -1.25, 0.0, 1e-3, 7.5, 1e9],
    "inf": [-inf, -1e308, -1.0, 0.0, 1e308, inf],
    "npfloat": [np.float64(v) for v in (-3.5, -1.25, -0.5, 1e-3, 7.5, 1e9)],
    "npint": [np.int64(v) for v in (-70, -5, 0, 1, 2, 300)],
    "npf32": [np.float32(v) for v in (-70, -5, 0, 1, 2, 300)],
    "mixed": [-2, -1.5, np.float64(-1.0), np.int32(0), 0.5, 10 ** 6],
    "near": [-1.001, -1.0, 0.999, 1.0, 1.001, 1.002],
    "tiny": [-3e-7, -1e-12, 0.0, 2e-12, 1e-9, 2e-7],
    "close": [1.0 + k * 3e-8 for k in (-2, -1, 0, 1, 2, 3)],
    "closehuge": [1e12 + k * 1e5 for k in (-2, -1, 0, 1, 2, 3)],
    "bigint": [10 ** 15 + k for k in (-2, -1, 0, 1, 2, 3)],
    "array0": [np.array(v) for v in (-2.0, -1.0, 0.5, 1.0, 2.0, 3.0)],
}


def nanof(sysname, k):
    return [nan, np.float64("nan"), float("nan")][k % 3]


def val(sysname, o, k=0):
    return nanof(sysname, k) if o == drv.NAN else SYS[sysname][o + 2]


def problem(kind, mx):
    base = FunctionProblem(lambda p: 0, maximize=mx)
    if kind == "function":
        return base
    if kind == "constant":
        return ConstantProblem(maximize=mx)
    if kind == "offset":
        return FitnessOffsetProblem(base, 10)
    if kind == "offset-override":
        return FitnessOffsetProblem(FunctionProblem(lambda p: 0, maximize=not mx), 10, maximize=mx)
    if kind == "average":
        return AverageFitnessProblem(base, 3)
    if kind == "cooperative":
        return CooperativeProblem(base, 2, ops.random_selection)
    if kind == "nested":
        return AverageFitnessProblem(FitnessOffsetProblem(base, -3), 2)
    if kind == "alternating":
        other = FunctionProblem(lambda p: 0, maximize=not mx)
        return AlternatingProblem([other, base], 2, context={"leap": {"generation": 3}})
    if kind == "alternating-later":
        other = FunctionProblem(lambda p: 0, maximize=not mx)
        return AlternatingProblem([other, base], 2, context={"leap": {"generation": 6}})


KINDS = ["function", "constant", "offset", "offset-override", "average", "cooperative", "nested", "alternating", "alternating-later"]
CLASSES = [Individual, RobustIndividual, WholeEvaluatedIndividual, DistributedIndividual]


def make(cls, prob, fit, g=0):
    i = cls(np.array([g]), IdentityDecoder(), prob)
    i.fitness = fit
    return i


def cmp(pk, mx, sysn, a, b, ci):
    p = problem(pk, mx)
    A, B = make(CLASSES[ci % 4], p, val(sysn, a, ci)), make(CLASSES[(ci // 2) % 4], p, val(sysn, b, ci + 1), 1)
    return dict(lt=bool(A < B), le=bool(A <= B), gt=bool(A > B), ge=bool(A >= B), eq=bool(A == B), ne=bool(A != B))


def none(pk, mx, sysn, a, ci):
    A = make(CLASSES[ci % 4], problem(pk, mx), val(sysn, a))
    return dict(lt=bool(A < None), le=bool(A <= None), gt=bool(A > None), ge=bool(A >= None), eq=bool(A == None), ne=bool(A != None))


def pick(pk, mx, sysn, pop, ci):
    p = problem(pk, mx)
    inds = [make(CLASSES[ci % 4], p, val(sysn, v, k)) for k, v in enumerate(pop)]
    at = {id(x): k + 1 for k, x in enumerate(inds)}
    return dict(best=at[id(max(inds))], worst=at[id(min(inds))], ord=[at[id(x)] for x in sorted(inds)],
                rev=[at[id(x)] for x in sorted(inds, reverse=True)])


def coin(pk, mx, ci, n):
    """two failed individuals: neither is systematically the worse one"""
    p = problem(pk, mx)
    A, B = make(CLASSES[ci % 4], p, nan), make(CLASSES[(ci // 2) % 4], p, nanof("", ci))
    return dict(ab=sum(bool(A < B) for _ in range(n)), ba=sum(bool(B < A) for _ in range(n)))


for k, pk in enumerate(KINDS):
    R.case("coin", coin, pk, k % 2 == 0, k, 1000, n=1000)
ORDS = [drv.NAN, -2, -1, 0, 1, 2, 3]
n = 0
for pk in KINDS:
    for sysn in SYS:
        for mx in (True, False):
            for a in ORDS:
                n += 1
                R.case("none", none, pk, mx, sysn, a, n, max=mx, a=a, problem=pk, system=sysn)
                for b in ORDS:
                    n += 1
                    R.case("cmp", cmp, pk, mx, sysn, a, b, n, max=mx, a=a, b=b, problem=pk, system=sysn)
for k, g in enumerate(R.gen()):
    pk = KINDS[k % len(KINDS)]
    sysn = list(SYS)[(k // 7) % len(SYS)]
    R.case("pick", pick, pk, g["max"], sysn, g["pop"], k, max=g["max"], pop=g["pop"], problem=pk, system=sysn)
for k in range(3000 if R.thorough else 400):
    pop = [R.rng.choice(ORDS) for _ in range(R.rng.randint(5, 12))]
    pk, sysn, mx = R.rng.choice(KINDS), R.rng.choice(list(SYS)), R.rng.random() < .5
    R.case("pick", pick, pk, mx, sysn, pop, k, max=mx, pop=pop, problem=pk, system=sysn)
for k in range(400 if R.thorough else 60):     # large populations
    pop = [R.rng.choice(ORDS) for _ in range(R.rng.choice([30, 64, 100, 129]))]
    pk, sysn, mx = R.rng.choice(KINDS), R.rng.choice(list(SYS)), R.rng.random() < .5
    R.case("pick", pick, pk, mx, sysn, pop, k, max=mx, pop=pop, problem=pk, system=sysn)
R.close()
