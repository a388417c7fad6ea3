#!/usr/bin/env python3
"""Writes known_findings.json (fixed entries suppress nothing; 'known' entries are matched by kind/clauses/where)."""
import json, os
F = [
    ("P22", "ac5e577", "ParetoPlotProbe2D without axes drew on whatever figure was current, not on the one it created"),
    ("P38", "00d03dd", "equals_uniform raised for counts whose uniform expectation does not sum exactly in floating point"),
    ("P37", "16378d8", "ELAConvexity.linear_p compared |delta| with a negative threshold: always 0"),
 ("P05","1409f83","insertion_selection let only the first len(parents) offspring compete (offspring [f=0,f=9] against one parent f=5 kept f=5)"),
 ("P05","3d0fc58","elitist_survival appended the elites to the caller's offspring list (len(offspring) grew by k)"),
 ("P19","17ab8e2","rank_ordinal_sort extended the caller's population list by the parents"),
 ("P20","92bb2d1","crowding_distance_calc lost every front whose objectives have no range, e.g. population of identical fitness vectors returned empty"),
 ("P21","b19d3bb","inserting (1,1,5),(1,1,0),(2,0,0),(0,2,0),(2,2,1) (3 maximised objectives) left (1,1,0) on the wrong layer"),
 ("P03","bbb03cb","grouped_evaluate(any FunctionProblem) raised TypeError: evaluate_multiple passed individuals= to evaluate"),
 ("P29","bbb03cb","Problem.evaluate_multiple passed individuals= to evaluate() of problems that do not take it"),
 ("P03","7680529","clones and grouped_evaluate reused a cached phenome of the parent's genome"),
 ("P08","49ce1e8","UniformCrossover raised/ignored tails for parents of unequal length"),
 ("P08","dfebbfc","NAryCrossover dropped genes of parents of unequal length"),
 ("P11","7edeb7b","copy_segment inserted the same array object twice, so mutating one copy mutated the other"),
 ("P23","1b8cd20","birth_brander asserted on generators / forgot its counter over several populations"),
 ("P31","1ef05c1","random_search(context=c) published its evaluation count in the global context, not in c"),
 ("P18","122bbea","a later successful evaluation left the earlier `exception` on the individual"),
 ("P18","3beef9e","a failing evaluation with a context without the 'distrib' count raised KeyError out of evaluate()"),
 ("P26","2a96a0c","PlotPittRuleProbe(modulo > 1) raised NameError (and skipped the due generations)"),
 ("P26","ede7aa7","initializer of PittRulesDecoder with a 2-dimensional Box paired lows of different inputs: genes outside their input's range"),
 ("P29","093f0a6","EnvironmentProblem.num_inputs and num_outputs returned None"),
 ("P32","ef0c2b2","PopulationSeedingRepertoire loaded from its exported file held list genomes, so applying it with any array operator raised ValueError"),
 ("P33","175981b","GaussianProblem(width, height) ignored both: every instance evaluated as width 1, height 1"),
 ("P34","1ce3407","random_orthonormal_matrix(1) (and with it MatrixTransformedProblem.random_orthonormal and QuadraticFamilyProblem.generate in one dimension) raised IndexError"),
 ("P07","fa4d81c","proportional_selection and sus_selection with an even exponent accepted negative shifted values (fitnesses [1, -1e-9, 2], exponent 2) instead of raising"),
 ("P26","24314b1","PlotPittRuleProbe(plot_dimensions=...) always drew conditions 0 and 1"),
 ("P09","ed9dadf","two uses of one crossover operator (persist_children) consumed alternately delivered each other's second child, or None"),
 ("P10","729966f","mutate_binomial on a uint8 genome: 251 plus an offset wrapped around to 1 before the clip to [0, 255]"),
 ("P10","3e86942","mutate_gaussian on a float32 genome with one bound pair per gene returned a float64 genome"),
 ("P07","aae27bf","proportional_selection and sus_selection on integer fitnesses overflowed: 100, 200, 300 with exponent 10 gave garbage shares or a spurious negative-value error"),
 ("P19","6bc75f8","fast_nondominated_sort of [y, x, x, z] (one individual present twice, y > x > z) gave z rank 0, i.e. better than the first front"),
 ("P12","56c63b6","migrate() raised IndexError as soon as an island without neighbours was due to emit"),
 ("P14","83fe835","CooperativeProblem(log_stream=...) raised on the first logged trial"),
]
KNOWN = []


def known(prop, fid, what, kind, clauses, **where):
    KNOWN.append(dict(property=prop, status="known", id=fid, what=what, match=dict(kind=kind, clauses=clauses, where=where)))


for _algo in ("nsga2-rank_ordinal_sort", "nsga2-fast_nondominated_sort", "enlu"):
    for _bad in ([2], [6]):
        known("P18", f"mo-failure-{_algo}-{_bad[0]}",
              f"multi-objective run ({_algo}) in which evaluation number {_bad[0]} fails: the scalar NaN fitness of the failed individual makes per_rank_crowding_calc raise TypeError instead of the run completing",
              "mo", ["raised", "failed-kept-over-viable"], algo=_algo, failing=_bad)
known("P18", "nonviable-count-on-cluster",
      "eval_population on a real dask cluster, 2 of 4 evaluations failing: context['leap']['distrib']['non_viable'] stays 0, because the worker increments its own unpickled copy of the context",
      "count", ["failures-counted"], transport="cluster", entry="eval_population")
for _via in ("pop", "iter"):
    known("P23", f"clone-keeps-birth-{_via}",
          f"two branded parents, their clones branded by the same birth_brander ({_via}): a clone carries its parent's `birth` along (shallow copy) and is let through un-branded, so birth numbers are not unique",
          "brand-clone", ["clone-shares-birth"], via=_via)
out = [dict(property=p, status="fixed", commit=c, what=w, line=f"fixed: property={p} {c} {w}") for p, c, w in F] + KNOWN
json.dump(dict(findings=out), open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w"), indent=1)
