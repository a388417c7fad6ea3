import copy, io
import drv
import numpy as np
from leap_ec import ops, probe, global_vars
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem
from leap_ec.representation import Representation
from leap_ec.algorithm import random_search
from leap_ec.binary_rep.ops import mutate_bitflip
from leap_ec.binary_rep.initializers import create_binary_sequence
R = drv.Rec()
G = global_vars.context
val = lambda g: int("1" + "".join(str(int(b)) for b in g), 2)


def walk(goal, how, own, start, mx):
    G["leap"].clear()
    G["leap"]["distrib"] = {"non_viable": 0}
    ctx = {"leap": {"distrib": {"non_viable": 0}}} if own else G
    if start:
        G["leap"]["generation"] = ctx["leap"]["generation"] = start      # left over from an earlier run
    ids, drawn, log, steps, seen = drv.Ids(), [], [], [], []

    def f(x):
        log.append(val(x))
        return float(7 * val(x) + 1)

    class Ind(Individual):
        pass
    init = create_binary_sequence(length=4)

    def mkgenome():
        drawn.append(0)
        return init()
    prob = FunctionProblem(f, maximize=mx)
    rep = Representation(initialize=mkgenome, individual_cls=Ind, decoder=IdentityDecoder())
    before = copy.deepcopy(G) if own else None

    def first(pop):
        for x in pop:
            if not seen:
                seen.append((x, val(x.genome), drv.num(x.fitness)))
        steps.append(dict(inp=[ids(x) for x in pop], pub=drv.num(ctx["leap"].get("generation")), out=[]))
        return pop

    def last(pop):
        steps[-1]["out"] = [ids(x) for x in pop]
        for x in pop:
            seen.append((x, val(x.genome), drv.num(x.fitness)))
        return pop
    mut = {"mutate": [mutate_bitflip(expected_num_mutations=1)], "twice": [mutate_bitflip(expected_num_mutations=1), mutate_bitflip(probability=.3)],
           "xprobe": [mutate_bitflip(expected_num_mutations=2), probe.print_individual(stream=io.StringIO())], "reset": [mutate_bitflip(probability=1.0)]}[how]
    sel = {"mutate": ops.cyclic_selection, "twice": ops.random_selection, "xprobe": ops.naive_cyclic_selection, "reset": ops.tournament_selection(k=1)}[how]
    pipeline = [first, sel, ops.clone] + mut + [ops.evaluate, ops.pool(size=1), last]
    kw = dict(context=ctx) if own else {}
    tr = random_search(goal, prob, rep, pipeline, **kw)
    assert isinstance(tr, list)
    if not seen:
        seen.append((tr[0], val(tr[0].genome), drv.num(tr[0].fitness)))
    W = [ids(x) for x in tr]
    s0 = {id(x): (g, v) for x, g, v in seen}
    gens = [val(x.genome) for x in tr]
    return dict(walk=W, steps=steps, drawn=[W[0]] * len(drawn), final=drv.num(ctx["leap"].get("generation")), log=log, gens=gens, fits=[drv.num(x.fitness) for x in tr],
                truth=[7 * g + 1 for g in gens], gens0=[s0.get(id(x), (-1, -1))[0] for x in tr], fits0=[s0.get(id(x), (-1, -1))[1] for x in tr],
                othersame=(G == before) if own else True, probs=all(x.problem is prob and isinstance(x, Ind) for x in tr))


for c in R.gen():
    R.case("walk", walk, c["goal"], c["ops"], c["own"], c["start"], c["max"], goal=c["goal"], ops=c["ops"], own=c["own"], start=c["start"])
for k in range(24 if R.thorough else 8):       # long walks
    goal, how, own, start, mx = R.rng.choice([20, 55, 130]), ["mutate", "twice", "xprobe", "reset"][k % 4], k % 3 == 0, R.rng.choice([0, 0, 3, 90]), k % 2 == 0
    R.case("walk", walk, goal, how, own, start, mx, goal=goal, ops=how, own=own, start=start)
R.close()
