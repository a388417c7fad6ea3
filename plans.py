"""One plan per property: which models TLC checks, what TLC generates, which driver runs, which spec judges."""


def std(model=None, gen=None, driver=None, trace=None, cfgs=("",), gen_t=True, model_t=False):
    def run(c):
        for m in (model or []):
            c.model(m, m + ("_t" if model_t and c.tier == "thorough" else ""))
        extra = []
        for g in (gen or []):
            cfg = g + ("_t" if gen_t and c.tier == "thorough" else "")
            extra += ["--gen", c.generate(g, cfg, g)]
        t = c.drive(driver, extra)
        c.validate(trace, t)
    return run


P01 = std(["Ordering"], ["GenOrdering"], "p01_ordering.py", "TraceOrdering")
P02 = std(["Genealogy"], ["GenPrograms"], "p02_clones.py", "TraceGenealogy", model_t=True)
P03 = std(["Genealogy"], ["GenPrograms"], "p03_fitness.py", "TraceGenealogy", model_t=True)
P05 = std(["Survival"], ["GenSurvival"], "p05_survival.py", "TraceSurvival", model_t=True)


def P06(c):
    c.model("Selection", "SelectionT" + ("_t" if c.tier == "thorough" else ""))
    g = c.generate("GenSelection", "GenSelection" + ("_t" if c.tier == "thorough" else ""), "sel")
    c.validate("TraceSelection", c.drive("p06_selection.py", ["--gen", g]))


def P07(c):
    c.model("Selection", "SelectionS" + ("_t" if c.tier == "thorough" else ""))
    g = c.generate("GenShares", "GenShares" + ("_t" if c.tier == "thorough" else ""), "sh")
    c.validate("TraceSelection", c.drive("p07_proportional.py", ["--gen", g]))


P08 = std(["Crossover"], None, "p08_crossover.py", "TraceCrossover", model_t=True)
P09 = std(["ChildStream", "ChildInterleave"], ["GenUses", "GenInterleave"], "p09_child_stream.py", "TraceChildStream", model_t=True)
P10 = std(["Mutation"], None, "p10_mutation.py", "TraceMutation", model_t=True)
P11 = std(["Segments"], ["GenSegOps"], "p11_segments.py", "TraceSegments", model_t=True)
P04 = std(["Generational"], ["GenRuns"], "p04_generational.py", "TraceGenerational", model_t=True)


def P12(c):
    t = "_t" if c.tier == "thorough" else ""
    c.model("Migration", "Migration" + t)
    c.model("Migration", "MigrationSink" + t)
    g = c.generate("GenTopologies", "GenTopologies" + t, "GenTopologies")
    c.validate("TraceMigration", c.drive("p12_migration.py", ["--gen", g]))


P13 = std(["Islands"], ["GenIslands"], "p13_islands.py", "TraceIslands", model_t=True)
P14 = std(["Coop"], ["GenCoop"], "p14_coop.py", "TraceCoop", model_t=True)
P15 = std(["SteadyState"], ["GenSchedules"], "p15_steady.py", "TraceSteadyState", model_t=True)
P16 = std(["Insertion"], ["GenArrivals"], "p16_insertion.py", "TraceInsertion", model_t=True)
P17 = std(["ParallelEval"], ["GenOrders"], "p17_parallel.py", "TraceParallelEval", model_t=True)
P18 = std(["Failure"], ["GenOutcomes"], "p18_failure.py", "TraceFailure", model_t=True)
P19 = std(["Pareto"], ["GenVectors"], "p19_pareto.py", "TracePareto", model_t=True)
P20 = std(["Pareto"], ["GenVectors"], "p20_nsga2.py", "TracePareto", model_t=True)
P21 = std(["Pareto"], ["GenVectors"], "p21_enlu.py", "TracePareto", model_t=True)
P22 = std(["Probes"], ["GenHistories"], "p22_probes.py", "TraceProbes", model_t=True)
P23 = std(["Counters"], ["GenCounters"], "p23_counters.py", "TraceCounters", model_t=True)
P24 = std(["Decoders"], ["GenLayouts"], "p24_decoders.py", "TraceDecoders", model_t=True)
P25 = std(["CGP"], ["GenCircuits"], "p25_cgp.py", "TraceCGP", model_t=True)
P26 = std(["PittRules"], ["GenRules"], "p26_rules.py", "TracePittRules", model_t=True)
P27 = std(["Initial"], ["GenInitial"], "p27_init.py", "TraceInitial", model_t=True)
P28 = std(["Parsimony"], ["GenParsimony"], "p28_parsimony.py", "TraceParsimony", model_t=True)
P29 = std(["Problems"], ["GenProblems"], "p29_problems.py", "TraceProblems", model_t=True)
P30 = std(["Pipeline"], ["GenPipelines"], "p30_pipeline.py", "TracePipeline", model_t=True)
P31 = std(["RandomWalk"], ["GenWalks"], "p31_walk.py", "TraceRandomWalk", model_t=True)
P32 = std(["Seeding"], ["GenSeeding"], "p32_seeding.py", "TraceSeeding", model_t=True)
P33 = std(["Benchmarks"], ["GenBench"], "p33_bench.py", "TraceBench", model_t=True)
P34 = std(["MCLandscapes"], ["GenLandscapes"], "p34_landscapes.py", "TraceLandscapes", model_t=True)
P35 = std(["NeuralNet"], ["GenNets"], "p35_networks.py", "TraceNeuralNet", model_t=True)
P36 = std(["Analysis"], ["GenRunsets"], "p36_analysis.py", "TraceAnalysis", model_t=True)
P37 = std(["Convexity"], ["GenDesigns"], "p37_convexity.py", "TraceConvexity", model_t=True)
P38 = std(["StatTests"], ["GenCounts"], "p38_stats.py", "TraceStatTests", model_t=True)
P39 = std(["Guards"], ["GenGuards"], "p39_guards.py", "TraceGuards", model_t=True)
P40 = std(["Phenome"], ["GenPhenome"], "p40_phenome.py", "TracePhenome", model_t=True)
