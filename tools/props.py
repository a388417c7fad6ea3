#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = []


def prop(pid, title, statement, over, text, why, files, mech, observe, built=True, na=None, note=None, tech=None):
    T.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, built=built, na=na, note=note, tech=tech))


prop("P01", "Fitness comparison is one consistent best-to-worst order",
     "For every single-objective problem (including one wrapped by an offset, averaging, cooperative or alternating problem), an individual compares greater than another exactly when its fitness is strictly better in that problem's direction, equal when the fitnesses are equal, and less otherwise; an individual whose evaluation failed (NaN) is strictly worse than every successfully evaluated one, whatever the direction. All six comparison operators agree with each other, any evaluated individual beats a missing (None) individual, and so maximum, minimum and sorting return truly best, worst and ordered individuals.",
     ["inputs", "configurations"], "all pairs and populations of fitness values (finite, infinite, NaN; Python and NumPy numbers), both directions, every wrapper",
     "tests compare a handful of hand-picked pairs; ordering laws must hold for all pairs/triples, NaN placements, directions and wrappers",
     ["leap_ec/individual.py", "leap_ec/problem.py"],
     [("Individual ordering", "leap_ec/individual.py: __lt__/__eq__/total_ordering"), ("direction and NaN rule", "leap_ec/problem.py: ScalarProblem.worse_than/equivalent")],
     ["results of <, <=, >, >=, ==, != and max/min/sorted on Individuals"])

prop("P02", "Clones are isolated, unevaluated copies with recorded lineage",
     "Cloning an individual of any class yields a new individual of the same class, decoder and problem whose genome equals the parent's but shares no mutable state with it, whose fitness is unset, whose identifier is new and whose parent set is exactly the cloned individual; the original is left unchanged. Whatever mutation, crossover or segment operator is later applied to the clones, every original keeps its genome, fitness, identifier and parents.",
     ["programs", "inputs"], "every individual class, genome type (arrays, lists of arrays), and sequence of variation operators applied after cloning",
     "tests clone one array genome; isolation is a claim about every later operator sequence and nested genome",
     ["leap_ec/individual.py", "leap_ec/ops.py", "leap_ec/distrib/individual.py"],
     [("clone", "leap_ec/individual.py: Individual.clone"), ("clone operator", "leap_ec/ops.py: clone")],
     ["attributes of parents and clones before/after operator sequences"])

prop("P03", "An individual's fitness always belongs to its current genome",
     "After any evaluation step (one by one, bulk, or grouped in chunks of any size) every individual's fitness is its own problem's value for the decoding of its own current genome, each individual is evaluated exactly once per pass and order is preserved. After any mutation, crossover or segment operator an individual whose genome changed carries no fitness until it is evaluated again; re-evaluating a changed individual never reuses an earlier phenome or fitness.",
     ["programs", "inputs", "histories"], "all operator sequences between evaluations, decoders, chunk sizes and population sizes",
     "tests evaluate once after construction; staleness needs histories (evaluate, vary, evaluate again) over every operator",
     ["leap_ec/ops.py", "leap_ec/individual.py", "leap_ec/binary_rep/ops.py", "leap_ec/int_rep/ops.py", "leap_ec/real_rep/ops.py", "leap_ec/segmented_rep/ops.py", "leap_ec/problem.py"],
     [("fitness invalidation", "all mutation/crossover operators: individual.fitness = None"), ("evaluate", "leap_ec/ops.py: evaluate, grouped_evaluate; leap_ec/individual.py: evaluate")],
     ["genome, fitness of individuals at every pipeline stage; calls received by the fitness function"])

prop("P04", "Generational EA: exact generations, constant size, elites never lost",
     "A generational run evaluates the initial population once, then runs the pipeline until the generation number, counted up by one from the start generation, reaches the requested maximum (earlier only if the stop condition becomes true, which is consulted with the current population before every generation), publishing the current generation number before each. Each new population has the size of the offspring pool and consists of the best of the offspring together with the k best parents, so with at least one elite the best fitness never worsens; the final population is returned.",
     ["histories", "configurations"], "all problems, directions, population/pool sizes, elite counts, start generations, stop conditions, pipelines",
     "tests run a few seeds and look at the end; monotonicity and exact accounting must hold at every generation of every run",
     ["leap_ec/algorithm.py", "leap_ec/ops.py", "leap_ec/simple.py", "leap_ec/util.py"],
     [("main loop", "leap_ec/algorithm.py: generational_ea"), ("elitism", "leap_ec/ops.py: elitist_survival")],
     ["pipeline taps, stop callback, generation in context, returned population, fitness-call log"])

prop("P05", "Survivor selection keeps exactly the right individuals",
     "Truncation returns the requested number of individuals drawn from offspring (and parents, when given) such that none left out is better than one kept; elitist survival lets exactly the k best parents compete with the offspring and returns as many as there were offspring; insertion selection lets every offspring challenge one uniformly random parent slot, replacing its occupant exactly when the occupant is not better, and returns a population as large as the parents. Individuals are never duplicated or invented, a custom key replaces the default comparison everywhere, and the caller's lists are left as they were.",
     ["inputs", "configurations"], "all populations (ties, NaN), sizes, k, keys, both directions",
     "tests check two or three hand-made populations without ties, NaN or input aliasing",
     ["leap_ec/ops.py"],
     [("truncation", "leap_ec/ops.py: truncation_selection"), ("elitism", "leap_ec/ops.py: elitist_survival"), ("EV insertion", "leap_ec/ops.py: insertion_selection")],
     ["identity of returned individuals and of caller lists"])

prop("P06", "Tournament, random and cyclic selection choose as specified",
     "Tournament selection yields the best (or, when asked, the worst) of k contestants drawn uniformly with replacement from the whole population, equally good members being equally likely, under the default comparison or a custom key; random selection yields uniformly chosen members; cyclic selection yields every member exactly once per tour, the first tour in order and later tours in random order, every order possible, and naive cyclic selection repeats the population in order. Yielded individuals are population members themselves, and a supplied index list always holds exactly the position of the individual just yielded.",
     ["inputs", "configurations"], "all populations, k, keys, directions, stream lengths",
     "tests count winners on one two-member population; draws and outcomes range over all populations and k",
     ["leap_ec/ops.py"],
     [("tournament", "leap_ec/ops.py: tournament_selection"), ("cyclic", "leap_ec/ops.py: naive_cyclic_selection, cyclic_selection, random_selection")],
     ["yielded individuals, index list, observed winner frequencies"])

prop("P07", "Fitness-proportional selection gives every individual its share",
     "Proportional selection yields members with probability proportional to (value + offset) raised to the exponent, and stochastic universal sampling gives each member, in every pass of n points, its expected number of copies rounded down or up, in population order; members with zero share are never chosen. Values come from fitness or a custom key, an offset may be a number or the population minimum, and a negative shifted value or a non-positive number of points is rejected with an error.",
     ["inputs", "configurations"], "all value vectors, offsets, exponents, keys, point counts, number of passes",
     "tests use one or two populations; the floor/ceiling law must hold for every population and pass",
     ["leap_ec/ops.py"],
     [("roulette", "leap_ec/ops.py: proportional_selection"), ("SUS", "leap_ec/ops.py: sus_selection"), ("values", "leap_ec/ops.py: compute_population_values")],
     ["yielded individuals per pass, frequencies, raised errors"])

prop("P08", "Crossover conserves genes locus by locus and reaches every recombination",
     "The two children of a crossover hold, at every locus, exactly the two parental genes of that locus (unequal lengths included: tails beyond the shorter parent are kept whole), and with n crossover points the source alternates at most n times along the genome. Uniform crossover swaps each locus independently with the requested probability; n-point crossover can produce every choice of n distinct cut positions, equally likely; a genome shorter than the number of points is rejected.",
     ["inputs", "configurations"], "all genomes (arrays, lists, segmented), lengths, point counts, swap probabilities",
     "tests check a handful of outputs for one genome pair; conservation and reachability quantify over all pairs and cut choices",
     ["leap_ec/ops.py"],
     [("uniform", "leap_ec/ops.py: UniformCrossover.recombine"), ("n-point", "leap_ec/ops.py: NAryCrossover.recombine")],
     ["child genomes against parent genomes; observed outcome sets and frequencies"])

prop("P09", "Crossover streams pair parents, honour probability and keep second children",
     "A crossover operator consumes its input two individuals at a time and emits both children in order, recombining a pair with the requested probability and passing it through completely unchanged otherwise. After a recombination both children record the lineage of both parents and carry no fitness. A child produced but not yet taken when the consumer stops is delivered first by the next use of the same operator if children are set to persist, and is never delivered (nor any child twice) otherwise; this also holds for uses that are consumed alternately.",
     ["histories", "configurations"], "all sequences of uses of one operator and numbers of children pulled in each, probabilities, both crossover kinds",
     "tests pull once or twice; the persistence law is about every history of partial consumption",
     ["leap_ec/ops.py"],
     [("child stream", "leap_ec/ops.py: Crossover.__call__, second_child")],
     ["identity, parents, fitness of emitted children over successive uses"])

prop("P10", "Mutation stays in the domain and hits genes with the requested probability",
     "Bit-flip mutation only flips bits; random-integer mutation replaces a gene by any value within its own inclusive bounds, all reachable and equally likely; binomial and Gaussian mutation add zero-centred noise of the requested width and clip every gene into its hard bounds. Each gene is mutated independently with the given probability, or with the probability giving the requested expected number of mutations, unselected in-bounds genes and the genome's length and type are unchanged, and conflicting, missing or out-of-range rate arguments are rejected.",
     ["inputs", "configurations"], "all genomes, lengths, bounds (shared or per gene, degenerate), rates, widths",
     "tests check one genome and approximate means; domain and reachability are claims for all genomes, bounds and rates",
     ["leap_ec/binary_rep/ops.py", "leap_ec/int_rep/ops.py", "leap_ec/real_rep/ops.py", "leap_ec/ops.py"],
     [("bit flip", "leap_ec/binary_rep/ops.py"), ("int", "leap_ec/int_rep/ops.py"), ("gaussian + bounds", "leap_ec/real_rep/ops.py"), ("rate", "leap_ec/ops.py: compute_expected_probability, random_bernoulli_vector")],
     ["genomes before/after, outcome sets, frequencies, errors"])

prop("P11", "Segmented genomes change by exactly the intended segment",
     "Adding inserts exactly one freshly created segment (at the end when appending, otherwise at any position), copying inserts exactly one independent copy of an existing segment, and removing deletes exactly one segment but never the last one; each happens with the requested probability and leaves all other segments, their contents and order as they were. Segment-wise mutation keeps the number, order and lengths of segments and applies each segment's mutator once to that segment, handing it an equal share of the expected number of mutations; new genomes have the requested (fixed or drawn) number of segments.",
     ["inputs", "histories"], "all segmented genomes, probabilities, positions, and sequences of these operators",
     "tests check one or two genomes with one call; aliasing and structure errors appear over sequences of operators",
     ["leap_ec/segmented_rep/ops.py", "leap_ec/segmented_rep/initializers.py", "leap_ec/segmented_rep/decoders.py"],
     [("segment operators", "leap_ec/segmented_rep/ops.py")],
     ["segment lists before/after each operator, segment object independence"])

prop("P12", "Migration follows the topology, the schedule and the competition rule",
     "Each island that has a neighbour emits exactly one emigrant (one without emits none), a copy (same genome and fitness, own identity) of the individual its emigrant selector picks, in exactly those generations divisible by the migration gap; it arrives exactly once, at the next processing of one neighbouring island in the topology, all neighbours being possible. An immigrant is first transformed for its destination, then replaces the individual chosen by the replacement selector, at the same position, exactly when it is at least as good; island sizes never change, all other members stay in place, and the metric reports every attempt truthfully.",
     ["histories", "configurations"], "all topologies, gaps, selectors, island contents and numbers of generations",
     "tests run one two-island example; schedule and routing are properties of whole histories over all topologies",
     ["leap_ec/ops.py", "leap_ec/algorithm.py"],
     [("migrate closure", "leap_ec/ops.py: migrate/do_migrate, immigrants"), ("metric", "leap_ec/ops.py: migration_metric")],
     ["populations before/after each migration call, selector/stamp/metric callbacks, CSV rows"])

prop("P13", "Multi-population EA drives every island in order with its own parts",
     "A multi-population run creates and evaluates every subpopulation once with its own representation and problem, then in every generation processes the subpopulations in index order, each through the shared pipeline followed by its own pipeline, while operators see the correct current subpopulation index, generation number and the live list of all current subpopulations. It runs exactly the requested number of generations unless the stop condition holds on the list of subpopulations, and returns them in order.",
     ["histories", "configurations"], "numbers of subpopulations, generations, shared/own pipelines, per-island representations and problems, stop conditions",
     "tests run one configuration and look at the result only",
     ["leap_ec/algorithm.py"],
     [("main loop", "leap_ec/algorithm.py: multi_population_ea")],
     ["operator taps with context snapshots, returned populations, fitness-call log"])

prop("P14", "Cooperative evaluation combines the right partners in the right order",
     "A partial solution's cooperative fitness is the mean, over exactly the requested number of trials, of the underlying problem's value of the combination, in subpopulation order, of the individual itself at its own subpopulation's place and one member picked by the collaborator selector from every other subpopulation. Both forms (evaluation operator and problem wrapper, single or grouped) agree with this, leave all collaborators and their fitness untouched, and write one log row per collaborator plus one for the combination per trial when logging is on.",
     ["inputs", "histories"], "numbers and sizes of subpopulations, current index, trials, selectors, genome lengths",
     "tests run one example for crash-freedom; partner order and averaging must hold for every index, selector and trial count",
     ["leap_ec/ops.py", "leap_ec/problem.py"],
     [("operator", "leap_ec/ops.py: CooperativeEvaluate"), ("problem", "leap_ec/problem.py: CooperativeProblem")],
     ["phenomes reaching the wrapped problem, resulting fitness, log rows"])

prop("P15", "Asynchronous steady state spends exactly its birth budget, whatever the schedule",
     "For every order in which evaluations complete and every pattern of failures, an asynchronous steady-state run terminates after evaluating the initial population plus exactly the birth budget of offspring, plus one extra offspring per failed evaluation when failures are not to be counted; every individual is evaluated once, delivered once to the probe and once to the inserter, in completion order. The published birth count always equals offspring created minus uncounted failures, and offspring are bred only from individuals already evaluated.",
     ["schedules", "fault_sequences", "configurations"], "all completion orders, failure patterns, initial sizes, budgets, population capacities, offspring batch sizes",
     "tests run one uncontrolled schedule on a real cluster",
     ["leap_ec/distrib/asynchronous.py", "leap_ec/distrib/evaluate.py", "leap_ec/util.py"],
     [("budget loop", "leap_ec/distrib/asynchronous.py: steady_state"), ("births counter", "leap_ec/util.py: inc_births")],
     ["futures submitted/completed, evaluated probe, inserter, population probe, births in context"])

prop("P16", "Asynchronous insertion keeps a bounded, never-worsening population",
     "While the population is below capacity every newly evaluated individual is added; at capacity its size stays exactly at capacity and the newcomer either replaces one member or is dropped. The greedy rule challenges a worst member, the tournament rule a uniformly random one; the challenged member is replaced exactly when it is non-viable or the newcomer is strictly better, so the best viable fitness never worsens and a viable member is never displaced by a failed one.",
     ["schedules", "fault_sequences", "inputs"], "all arrival sequences of fitness values and failures, capacities, directions",
     "tests check single insertions",
     ["leap_ec/distrib/asynchronous.py"],
     [("inserters", "leap_ec/distrib/asynchronous.py: greedy_insert_into_pop, tournament_insert_into_pop, replace_if")],
     ["population contents before/after every insertion"])

prop("P17", "Parallel evaluation gives the same result as serial evaluation",
     "Evaluating a population or a pool of the requested size through a cluster client returns one evaluated individual per input, in input order, each with its own genome, identity and exactly the fitness serial evaluation would give, whatever the order in which workers finish and whichever of the evaluations fail. Each returned individual records when, where and by which process it was evaluated, with the start not after the end.",
     ["schedules", "fault_sequences", "inputs"], "completion orders, worker counts, population and pool sizes, failing subsets",
     "tests evaluate one population on one cluster without controlling completion order",
     ["leap_ec/distrib/synchronous.py", "leap_ec/distrib/evaluate.py"],
     [("map/gather", "leap_ec/distrib/synchronous.py"), ("worker side", "leap_ec/distrib/evaluate.py")],
     ["returned individuals vs inputs"])

prop("P18", "A failing fitness evaluation is contained and always loses",
     "When evaluating a failure-tolerant individual raises any exception, the exception does not propagate: the individual gets NaN fitness, is marked non-viable and keeps the exception; a successful evaluation marks it viable with its value and no exception, and each evaluation overwrites the marks of earlier ones. In serial, synchronous and asynchronous runs with any subset of failing evaluations the run completes, the number of failures is counted, and a non-viable individual never beats a viable one in selection or survival.",
     ["fault_sequences", "histories"], "all failure patterns, exception types, operators, serial/parallel runs",
     "tests fail one evaluation; containment must hold at each possible failure point of each run",
     ["leap_ec/individual.py", "leap_ec/distrib/evaluate.py", "leap_ec/problem.py", "leap_ec/distrib/asynchronous.py"],
     [("robust evaluation", "leap_ec/individual.py: RobustIndividual.evaluate"), ("NaN order", "leap_ec/problem.py: ScalarProblem.worse_than"), ("failure count", "leap_ec/distrib/evaluate.py: evaluate")],
     ["marks on individuals, survivors, failure count"])

prop("P19", "Pareto dominance and non-dominated ranks are exact",
     "In a multi-objective problem with any mix of maximised and minimised objectives, one individual is better than another exactly when it is at least as good on all objectives and strictly better on one, and two individuals are equivalent exactly when neither dominates the other. Both ranking operators assign every individual of the population (and of the parents, if given) rank 1 if nothing dominates it and otherwise one more than the highest rank among its dominators, agree with each other on every population including duplicates (an individual present more than once counts once), lose or invent no one, and leave the caller's lists alone.",
     ["inputs", "configurations"], "all populations of objective vectors with ties and duplicates, all direction vectors, any number of objectives",
     "tests compare the two sorts on a few random populations",
     ["leap_ec/multiobjective/ops.py", "leap_ec/multiobjective/problems.py"],
     [("dominance", "leap_ec/multiobjective/problems.py: worse_than/equivalent"), ("ranking", "leap_ec/multiobjective/ops.py: fast_nondominated_sort, rank_ordinal_sort")],
     ["comparison results, rank attribute, returned list"])

prop("P20", "NSGA-II keeps the best fronts and, within a front, the least crowded",
     "Crowding distance within a front is infinite at the extremes of every objective that varies and otherwise the sum over objectives of the neighbours' gap divided by the front's range (objectives that do not vary count nothing), and no individual is lost while computing it. Every NSGA-II generation keeps exactly the population size, preferring lower rank and then larger crowding distance among parents and offspring together, so a non-dominated solution is dropped only when the first front alone overflows; generations are counted and the stop condition honoured as requested.",
     ["inputs", "histories", "configurations"], "all fronts (single members, duplicates, flat objectives), directions, population sizes, ranking functions",
     "tests check one front and one run",
     ["leap_ec/multiobjective/ops.py", "leap_ec/multiobjective/nsga2.py", "leap_ec/ops.py"],
     [("crowding", "leap_ec/multiobjective/ops.py: crowding_distance_calc, per_rank_crowding_calc, sort_by_dominance"), ("main loop", "leap_ec/multiobjective/nsga2.py: generalized_nsga_2")],
     ["distance attribute, survivors of every generation"])

prop("P21", "Incremental Pareto layers always equal a full re-ranking",
     "After every insertion, whatever the arrival order and objective directions, the steady-state multi-objective population is partitioned into layers exactly equal to the non-dominated fronts of its members, every member's rank is its layer number, and every member's crowding distance is that of its layer. The population never exceeds its capacity: on overflow exactly one member leaves, one of smallest crowding distance in the last layer, and nobody else is lost or duplicated.",
     ["histories", "schedules", "inputs"], "all insertion sequences of objective vectors (ties, duplicates, several objectives), capacities, completion orders",
     "tests insert a few random points and compare ranks once",
     ["leap_ec/multiobjective/asynchronous.py", "leap_ec/multiobjective/ops.py"],
     [("ENLU", "leap_ec/multiobjective/asynchronous.py: enlu_inds_rank, ENLUInserter")],
     ["flat population, rank and distance after each insertion"])

prop("P22", "Probes report the truth and change nothing",
     "Best-so-far probes report at every step the best fitness (in the problem's direction) over everything they have seen since the start, so it never worsens; statistics probes write for every generation that is a multiple of the requested interval one row with that generation, the best so far including skipped generations, and the mean, standard deviation, minimum and maximum of the current population; attribute probes write one row per individual (or for the best only) with exactly the requested columns in order. Population-metric probes and plots record the requested metric (diversity measures included) at exactly the due generations; histogram, heat-map, trajectory, Pareto and phenotype-sum probes hold exactly the data of the populations they are due to show; distributed logs are flushed after every report. All probes hand on the same individuals unchanged and in order.",
     ["histories", "inputs", "configurations"], "all sequences of populations, intervals, directions, column selections",
     "tests probe one or two populations; best-so-far is a property of the history",
     ["leap_ec/probe.py"],
     [("best so far", "leap_ec/probe.py: BestSoFarProbe, BestSoFarIterProbe"), ("stats", "leap_ec/probe.py: FitnessStatsCSVProbe"), ("attributes", "leap_ec/probe.py: AttributesCSVProbe")],
     ["rows written to the stream/dataframe, populations passed through"])

prop("P23", "Generation and birth counters never drift from what they publish",
     "Starting from any value, after every history of increments and decrements a generation or birth counter's own value, its return values and the value published in its context agree and equal start plus increments minus decrements, and every increment is announced once, with the new value, to every callback in order. The current-step query returns exactly the counter asked for (or the only one present) and refuses ambiguous or missing ones, and birth branding gives individuals consecutive unique birth numbers across pipelines and populations, never re-branding one.",
     ["histories", "configurations"], "all call histories, start values, callbacks, context contents",
     "tests call each once or twice",
     ["leap_ec/util.py"],
     [("counters", "leap_ec/util.py: inc_generation, inc_births, get_step, birth_brander")],
     ["return values, context, callback log, birth attributes"])

prop("P24", "Binary decoders are exact bijections onto their ranges",
     "Decoding a bit string splits it into consecutive segments of the described lengths and maps each segment to the integer it spells in big-endian binary, or in Gray code for the Gray decoders, so that all codes of a segment map one-to-one onto 0..2^bits-1 and consecutive integers differ in one bit under Gray code. The real-valued decoders map the all-lowest code to the lower bound, the highest to the upper bound and every other code to the equally spaced value in between; decoding depends only on the genome and never changes it.",
     ["inputs", "configurations"], "all bit strings and segment layouts, repeated use of one decoder on different layouts of genomes",
     "tests decode two or three strings",
     ["leap_ec/binary_rep/decoders.py", "leap_ec/segmented_rep/decoders.py"],
     [("decoders", "leap_ec/binary_rep/decoders.py")],
     ["decoded values for all codes"])

prop("P25", "Cartesian GP genomes stay valid and execute as the encoded circuit",
     "Initialised and mutated genomes always satisfy the representation's constraints (function genes name a function; inputs come from earlier layers within levels-back or from inputs when allowed; outputs from any node), every allowed value being reachable, and the constraint checker accepts exactly the genomes that satisfy them. A decoded circuit computes, for every input vector and any number of executions, the value of the encoded graph with inputs in port order and per-node parameters, and pruning unused nodes never changes any output.",
     ["inputs", "programs", "configurations"], "all grid shapes, levels-back, primitive sets, genomes, input vectors",
     "tests execute two or three circuits; equivalence and validity quantify over all genomes and shapes",
     ["leap_ec/executable_rep/cgp.py", "leap_ec/int_rep/ops.py"],
     [("bounds", "leap_ec/executable_rep/cgp.py: _min_bounds/_max_bounds"), ("decode/prune/execute", "leap_ec/executable_rep/cgp.py: CGPDecoder, CGPExecutable, CGPWithParametersDecoder")],
     ["genomes, bounds, outputs of decoded executables with and without pruning"])

prop("P26", "Pitt rule systems fire the best-matching, highest-priority rule",
     "For every rule set and input, the action produced is that of the first rule, in rule order, whose every condition contains the input (ends included; a condition with reversed ends matches anything); if no rule matches fully, it is the action of one of the rules with the smallest squared distance to its conditions, every such rule being possible. Genomes decode segment by segment into conditions and actions in order, initial rule sets respect the input and output ranges, and rule mutation changes condition and action genes only through their own mutators.",
     ["inputs", "programs"], "all rule sets, inputs and dimensions over small grids, several outputs",
     "tests run one or two rule sets",
     ["leap_ec/executable_rep/rules.py"],
     [("matching", "leap_ec/executable_rep/rules.py: PittRulesExecutable"), ("decode", "leap_ec/executable_rep/rules.py: PittRulesDecoder")],
     ["actions returned for all inputs"])

prop("P27", "Initial populations have the requested size, type and in-bounds genomes",
     "Creating a population yields exactly the requested number of distinct individuals of the requested class with the given problem and decoder, each with a genome from its own initializer call, no fitness, no parents and a unique identifier. Binary, integer and real initializers produce genomes of the requested length whose genes lie within their own bounds (inclusive for integers), every integer and bit value being reachable and equally likely at every locus, and successive genomes share no storage.",
     ["inputs", "configurations"], "all sizes, lengths, bounds, classes",
     "tests draw a few genomes",
     ["leap_ec/individual.py", "leap_ec/representation.py", "leap_ec/binary_rep/initializers.py", "leap_ec/int_rep/initializers.py", "leap_ec/real_rep/initializers.py", "leap_ec/distrib/individual.py"],
     [("population creation", "leap_ec/individual.py: create_population; leap_ec/representation.py"), ("initializers", "leap_ec/*_rep/initializers.py")],
     ["created individuals and genomes"])

prop("P28", "Parsimony keys prefer fitness first and shorter genomes as promised",
     "Ordering individuals by the lexicographic parsimony key ranks better fitness first in the problem's direction and, among equal fitness, the shorter genome; ordering by the Koza key ranks by fitness (sign-adjusted for minimisation) minus penalty times genome length. Used as the key of tournament, truncation, elitist or insertion selection, exactly these orders decide, for maximisation and minimisation alike.",
     ["inputs", "configurations"], "all fitness/length combinations, penalties, directions, selection operators",
     "tests use one population",
     ["leap_ec/parsimony.py", "leap_ec/ops.py"],
     [("keys", "leap_ec/parsimony.py")],
     ["order induced by keys; individuals selected with them"])

prop("P29", "Problem wrappers and benchmark problems compute exactly their definition",
     "Offsetting adds exactly the constant, averaging returns the mean of exactly n evaluations of each phenome (one by one or grouped, in order), a constant problem returns its constant, an alternating problem evaluates and compares with the problem of the current generation's interval, and an external-process problem returns one fitness per phenome in order and raises an error when the program fails or returns the wrong number. The binary benchmarks compute exactly their definitions (count of ones, leading ones, two-max, deceptive trap), a truth-table problem scores the fraction of rows whose outputs are all reproduced, image problems score matching pixels or colour distance, and an environment problem runs the requested number of episodes, feeding each observation to the controller and stopping at the step limit or when the episode is done, scores mean reward or mean episode length, and reports the dimensions of its spaces.",
     ["inputs", "histories"], "all phenomes/bit strings up to a length, all generations and intervals, n, populations of phenomes",
     "tests evaluate a few points",
     ["leap_ec/problem.py", "leap_ec/binary_rep/problems.py", "leap_ec/executable_rep/problems.py"],
     [("wrappers", "leap_ec/problem.py"), ("benchmarks", "leap_ec/binary_rep/problems.py")],
     ["fitness values and calls received by the wrapped problem"])

prop("P30", "Pipelines are lazy, order-preserving and reject miswired operators",
     "A pool takes exactly as many individuals from its source as it returns, in order, and no operator upstream processes an individual that nobody asked for; per-individual operators emit exactly one output per input in order. Operators that need a list refuse an iterator, operators that need an iterator refuse a list, operators returning the wrong kind and operators missing required arguments are reported with an error, and well-typed pipelines are never refused.",
     ["programs", "inputs"], "all pipelines of the library's operators, pool sizes and source lengths",
     "tests build a few pipelines; laziness and wiring quantify over all compositions",
     ["leap_ec/ops.py", "leap_ec/util.py"],
     [("pool", "leap_ec/ops.py: pool"), ("wiring checks", "leap_ec/ops.py: iteriter_op, listlist_op, listiter_op, iterlist_op")],
     ["pull counts at the source, outputs, raised errors"])

prop("P31", "Random search records exactly the requested walk",
     "Random search returns exactly the requested number of evaluated individuals, the first drawn from the representation and each later one produced by the pipeline from its predecessor alone, in order, all earlier ones left unchanged. It performs exactly that many evaluations and publishes the running evaluation count in the context it was given and in no other.",
     ["histories", "configurations"], "all evaluation counts, pipelines, contexts",
     "tests run one walk and check its length",
     ["leap_ec/algorithm.py"],
     [("loop", "leap_ec/algorithm.py: random_search")],
     ["returned trajectory, fitness-call log, context"])

prop("P32", "Seeded initial populations contain the seeds and fill up with fresh genomes",
     "Seeded initialisation hands out every seed genome exactly once, in order, and then only fresh genomes of the underlying initializer, so a population of n created from s seeds holds exactly min(n, s) seeds; several initializers over the same seeds keep independent positions. Training a seeding repertoire runs the wrapped algorithm once per problem, in order, with unseeded populations and that problem's own arguments, and stores the genome of the last individual each run reports; after any history of training, applying, exporting and reloading from the exported file, applying it seeds the new task's population with exactly all stored solutions in order, as array genomes.",
     ["histories", "configurations"], "all seed lists, population sizes and histories of use",
     "tests run one transfer example",
     ["leap_ec/contrib/transfer/sequential.py"],
     [("seeding", "leap_ec/contrib/transfer/sequential.py: initialize_seeded, PopulationSeedingRepertoire")],
     ["created genomes in order"])

prop("P33", "Benchmark functions have their published values, optima and directions",
     "Every real-valued and multi-objective benchmark problem returns the value of its published definition at every point (decided on a lattice where that value is rational or a tabulated exponential), for its default and any given parameters, repeatably and without changing the point; it carries its published bounds and optimisation direction unless told otherwise. The noisy quartic adds one fresh standard normal per coordinate at every evaluation. The bounds-checked multi-objective problems refuse exactly the points outside their bounds, and only when checking is on.",
     ["inputs", "configurations"], "all points, dimensions and parameters",
     "tests evaluate the optimum and a few points",
     ["leap_ec/real_rep/problems.py", "leap_ec/multiobjective/problems.py"],
     [("formulas", "leap_ec/real_rep/problems.py: *Problem.evaluate"), ("two objectives", "leap_ec/multiobjective/problems.py: SCHProblem, ZDT1Problem..ZDT6Problem")],
     ["fitness values, bounds, direction, refusals"])

prop("P34", "Transformed landscapes evaluate the wrapped problem at the transformed point",
     "Any stack of translation, matrix transformation and rescaling wrappers evaluates the base problem exactly once, at the point obtained by undoing the wrappers from the outermost to the innermost, and passes its value on; the caller's point is not changed, points of the wrong dimension never reach the base, bounds are those of the innermost rescaling seen from outside, and the direction is the wrapped problem's unless a wrapper was told otherwise. Quadratic families take the lowest of their basins; generated families have the requested number of basins and global optima with offsets, widths and depths inside the given ranges and orthonormal rotations; random offsets and random orthonormal matrices are what their names say, in every dimension. Plotting a problem evaluates exactly the points of the requested grid.",
     ["inputs", "configurations"], "all stacks of wrappers, points, dimensions and family parameters",
     "tests check one wrapper at one point",
     ["leap_ec/real_rep/problems.py"],
     [("wrappers", "leap_ec/real_rep/problems.py: TranslatedProblem, MatrixTransformedProblem, ScaledProblem"), ("families", "leap_ec/real_rep/problems.py: QuadraticFamilyProblem, ParabaloidProblem"), ("matrices", "leap_ec/real_rep/problems.py: random_orthonormal_matrix"), ("plots", "leap_ec/real_rep/problems.py: plot_2d_problem")],
     ["points received by the base problem, values, bounds, direction"])

prop("P35", "Neural-network phenotypes compute exactly what their genome encodes",
     "A decoded network is the composition of its layers: for every shape, weight vector and input, its output is the activation of weights times inputs plus bias, layer by layer, with each genome entry used as exactly one weight; the genome length the decoder asks for is exactly the number of weights, other lengths are refused, the genome is never changed and the network has no memory between calls. Its graph view has one node per unit and one edge per weight, and the picture shows them. Wrapped executables (argmax, constant and random actions, keyboard control) answer every observation with an action of the action space as their definition says, and decoding through an executable decoder yields the same phenotype.",
     ["inputs", "configurations", "histories"], "all shapes, weights, inputs, activations and call histories",
     "tests evaluate one fixed network",
     ["leap_ec/executable_rep/neural_network.py", "leap_ec/executable_rep/executable.py"],
     [("network decoding and evaluation", "leap_ec/executable_rep/neural_network.py: SimpleNeuralNetworkDecoder, SimpleNeuralNetworkExecutable"), ("executables", "leap_ec/executable_rep/executable.py: Executable, ArgmaxExecutable, RandomExecutable, KeyboardExecutable, WrapperDecoder")],
     ["outputs, genome, graph nodes and edges, actions"])

prop("P36", "Experiment analysis neither loses nor mixes up runs",
     "From any table of recorded runs the curve analyzer groups rows by experiment and run exactly as identified by the given columns, in whatever order the rows arrive, and reports per run and per experiment the area under the curve, the maximum and the point-wise mean curve of exactly those rows; plots draw one line per run (or per experiment mean) with exactly those points; joining csv files keeps every row of every file once, with the modification columns of its file; the command line writes the same tables. The caller's data is never changed.",
     ["inputs", "configurations"], "all sets of runs, column choices, row orders and files",
     "there are no tests of multi-experiment tables",
     ["leap_ec/contrib/analysis.py"],
     [("analysis", "leap_ec/contrib/analysis.py: CurveAnalyzer, CurvePlotter, cat_csv_files, auc")],
     ["tables, plotted series, files"])

prop("P37", "Convexity features measure the sampled landscape, with sound verdicts",
     "The exploratory convexity feature samples exactly the requested number of pairs of two different design points, evaluates a point on the segment between them with the design's own problem and decoder, and records the deviation of its fitness from the interpolated one; convexity and linearity shares are the fraction of recorded deviations below the (negative) threshold, respectively of magnitude below it, so a linear landscape has share one of linear and none of convex tests, a strictly convex one the opposite. The design is never changed.",
     ["inputs", "configurations"], "all designs, landscapes, thresholds and numbers of tests",
     "tests check one paraboloid",
     ["leap_ec/landscape_features/exploratory.py"],
     [("convexity", "leap_ec/landscape_features/exploratory.py: ELAConvexity")],
     ["recorded tests, shares, evaluations, design"])

prop("P38", "Statistical helpers accept exactly what their significance level allows",
     "The chi-square helpers accept observed counts against expected or uniform counts exactly when the statistic is inside the critical value for the given significance and number of categories, independent of the order and naming of categories and of categories that are missing because their count is zero; a stricter significance never turns acceptance into refusal of the same data. Unequal totals are refused. Collecting a distribution calls the function exactly the requested number of times and counts every outcome. The Gaussian comparison accepts a sample exactly when its mean is compatible with the expected mean, given the deviations and sizes of sample and reference.",
     ["inputs", "configurations"], "all count tables, significance levels, samples",
     "tests use the helpers but do not test them at the boundary",
     ["leap_ec/statistical_helpers.py"],
     [("chi-square tests", "leap_ec/statistical_helpers.py: stochastic_equals, equals_uniform, equals_gaussian, collect_distribution")],
     ["verdicts, counts, number of calls"])

prop("P39", "Meaningless arguments are refused at the call and refusals have no effect",
     "Calls with arguments LEAP cannot treat meaningfully (both or neither of probability and expected number of mutations, probabilities outside [0, 1], negative deviations, wrong genome or phenome types, wrong numbers of segments, mutators, bounds, islands, runs or steps, reversed ranges, classes instead of instances, ...) raise an exception; all other combinations are accepted and produce a result. A refused call consumes and changes nothing of the caller's, and later calls behave as if it had never been made.",
     ["inputs", "configurations", "histories"], "all argument combinations over small domains for 37 guarded entry points",
     "tests check a few refusals and almost never that the legal neighbours are accepted",
     ["leap_ec/ops.py", "leap_ec/binary_rep/ops.py", "leap_ec/int_rep/ops.py", "leap_ec/real_rep/ops.py", "leap_ec/segmented_rep/ops.py", "leap_ec/problem.py", "leap_ec/real_rep/problems.py", "leap_ec/binary_rep/problems.py", "leap_ec/binary_rep/decoders.py", "leap_ec/executable_rep/cgp.py", "leap_ec/executable_rep/rules.py", "leap_ec/executable_rep/problems.py", "leap_ec/executable_rep/neural_network.py", "leap_ec/algorithm.py", "leap_ec/individual.py"],
     [("argument checks", "leap_ec/ops.py, leap_ec/*_rep/*.py, leap_ec/problem.py, leap_ec/algorithm.py: assertions and raised errors at function entry")],
     ["exceptions, results, state of arguments, behaviour of later calls"])

prop("P40", "The phenome is the decoded genome whenever it is used",
     "In every history of reading, assigning, changing the genome in place, decoding, evaluating and cloning, evaluation decodes the individual's current genome with its own decoder and hands exactly that phenome to its own problem; reading an undecoded phenome decodes it first; a clone starts undecoded with the same genome; nothing is evaluated unless asked, and no operation on one individual changes another's genome, phenome or fitness.",
     ["histories", "configurations"], "all histories up to a length over two individuals, every individual class",
     "tests evaluate an individual once",
     ["leap_ec/individual.py", "leap_ec/distrib/individual.py"],
     [("phenome", "leap_ec/individual.py: Individual.phenome, decode, evaluate, clone")],
     ["phenomes read, decoder and problem calls, fitness"])

prop("P91", "Live plots show on screen the numbers they are given",
     "The pixels rendered by plotting probes are a faithful picture of the data series handed to the plotting library.",
     ["inputs"], "all populations", "only smoke tests exist",
     ["leap_ec/probe.py"],
     [("plots", "leap_ec/probe.py: plotting probes")], ["figures"],
     built=False, na="Pixel output is produced by matplotlib and has no useful finite-state specification; the data handed to it is covered by P22, P34, P35 and P36.")

NOT_YET = set(os.environ.get("NOT_YET", "").split(",")) - {""}


def main():
    built = {f[:3].upper() for f in os.listdir(os.path.join(HERE, "drivers")) if f.startswith("p") and f.endswith(".py")}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in T:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    checks, na = [], []
    for p in T:
        if p["id"] in built and p["built"]:
            checks.append(dict(
                property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
                technique=p["tech"] or "TLA+ specification model-checked with TLC; recorded behaviour of the real code validated against it by TLC trace checking, inputs generated from the specification",
                level="model_checking",
                level_note=p["note"] or "Exhaustive on the specification within the stated constants; on the implementation, exhaustive over the specification-generated inputs plus seeded random ones, observed through the public API only. Trusts TLC, the drivers' recording, and Python/NumPy arithmetic on small integers."))
        else:
            na.append(dict(property=p["id"], reason=p["na"] or "Check not built yet (work in progress)."))
    json.dump(dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="No hooks: the checks observe the unmodified code through its public API.", source_commits=[]),
                   checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print("built", sorted(built), "na", [x["property"] for x in na])


main()
