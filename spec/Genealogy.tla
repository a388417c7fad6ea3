----------------------------- MODULE Genealogy -----------------------------
(* P02, P03: the store of individuals.  Genomes and phenomes are opaque keys   *)
(* (equal keys iff equal values); the fitness function of the recording runs    *)
(* returns the phenome's key, so a fitness identifies the phenome it belongs to.*)
EXTENDS LeapCommon

\* Effects of the operators on one individual ------------------------------
Cloned(r, id, uu) == [r EXCEPT !.id = id, !.uu = uu, !.par = {r.uu}, !.fit = None]
IsClone(r, c) ==
    C("clone-genome", c.g = r.g) \cup C("clone-unevaluated", c.fit = None)
    \cup C("clone-lineage", c.par = {r.uu}) \cup C("clone-new-identifier", c.uu # r.uu)
    \cup C("clone-class", c.cls = r.cls) \cup C("clone-decoder", c.dec = r.dec) \cup C("clone-problem", c.prob = r.prob)
\* a variation operator may change the genome; then the fitness is gone
IsVaried(r, s) ==
    C("stale-fitness", IF s.g # r.g THEN s.fit = None ELSE s.fit \in {None, r.fit})
    \cup C("variation-keeps-identity", s.uu = r.uu /\ s.cls = r.cls /\ s.dec = r.dec /\ s.prob = r.prob)
IsEvaluated(r, s) ==
    C("fitness-of-own-phenome", s.fit = s.p) \cup C("evaluation-keeps-individual", s.g = r.g /\ s.uu = r.uu /\ s.par = r.par)
Same(r, s) == C("bystander-changed", r = s)

----------------------------------------------------------------------------
(* Model: a store of at most MaxInds individuals over genomes Genomes.          *)
CONSTANTS Genomes, MaxInds
Pheno(g) == 10 * g          \* decoding: injective here
VARIABLES store, act        \* store: sequence of records; act: <<name, individuals touched>>
vars == <<store, act>>
New(id, g) == [id |-> id, uu |-> id, g |-> g, p |-> Pheno(g), fit |-> None, par |-> {}, cls |-> 1, dec |-> 1, prob |-> 1]
Init == act = <<"init", {}>> /\ \E g, h \in Genomes : store = <<New(1, g), New(2, h)>>
Clone(i) == /\ Len(store) < MaxInds
            /\ store' = Append(store, Cloned(store[i], Len(store) + 1, Len(store) + 1))
            /\ act' = <<"clone", {Len(store) + 1}>>
Vary(i) == \E g \in Genomes :
            /\ store' = [store EXCEPT ![i].g = g, ![i].p = Pheno(g), ![i].fit = None]
            /\ act' = <<"vary", {i}>>
Cross(i, j) == \E g, h \in Genomes : i # j
            /\ LET u == store[i].par \cup store[j].par IN
               store' = [store EXCEPT ![i].g = g, ![i].p = Pheno(g), ![i].fit = None, ![i].par = u,
                                      ![j].g = h, ![j].p = Pheno(h), ![j].fit = None, ![j].par = u]
            /\ act' = <<"cross", {i, j}>>
Evaluate(i) == store' = [store EXCEPT ![i].fit = Pheno(store[i].g)] /\ act' = <<"eval", {i}>>
EvaluateAll == store' = [k \in 1..Len(store) |-> [store[k] EXCEPT !.fit = Pheno(store[k].g)]] /\ act' = <<"eval", 1..Len(store)>>
Next == \/ \E i \in 1..Len(store) : Clone(i) \/ Vary(i) \/ Evaluate(i)
        \/ \E i, j \in 1..Len(store) : Cross(i, j)
        \/ EvaluateAll
Spec == Init /\ [][Next]_vars

Fresh == \A i \in 1..Len(store) : store[i].fit \in {None, Pheno(store[i].g)}
UniqueIds == \A i, j \in 1..Len(store) : i # j => store[i].uu # store[j].uu
LineageKnown == \A i \in 1..Len(store) : store[i].par \subseteq { store[j].uu : j \in 1..Len(store) }
\* no action touches anyone but those it names
Bystanders == [][\A i \in 1..Len(store) : i \notin act'[2] => store'[i] = store[i]]_vars
\* the effect predicates used for trace validation accept every step of the model
Effects == [][\A i \in 1..Len(store) :
               CASE act'[1] = "clone" -> Same(store[i], store'[i]) = {}
                 [] act'[1] \in {"vary", "cross"} /\ i \in act'[2] -> IsVaried(store[i], store'[i]) = {}
                 [] act'[1] = "eval" /\ i \in act'[2] -> IsEvaluated(store[i], store'[i]) = {}
                 [] OTHER -> Same(store[i], store'[i]) = {}]_vars
\* identifiers identify genealogies only; hide them
=============================================================================
