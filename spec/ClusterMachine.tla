--------------------------- MODULE ClusterMachine ---------------------------
(* Design model of the clusters: in each period the significant units are     *)
(* processed in any order, merging the groups they link; the second period's  *)
(* groups then tell where clusters have spread.                               *)
EXTENDS Lisa, Json
CONSTANTS N, Graphs, Second

VARIABLES nb, core, todo, groups, period, first
vars == <<nb, core, todo, groups, period, first>>
V == 1..N
Init ==
    /\ nb \in Graphs
    /\ core \in [1..2 -> SUBSET V]
    /\ period = 1 /\ todo = core[1] /\ groups = {} /\ first = {}
Touch(i) == {i} \cup nb[i]
Far(i) == UNION {nb[j] : j \in nb[i]}
Merge(G, e) == {g \in G : g \cap e = {}} \cup {e \cup UNION {g \in G : g \cap e # {}}}
\* every link from a core unit joins two groups
Take == \E i \in todo :
    /\ groups' = IF nb[i] = {} THEN groups
                 ELSE IF Second THEN Merge(groups, Touch(i) \cup Far(i)) ELSE Merge(groups, Touch(i))
    /\ todo' = todo \ {i}
    /\ UNCHANGED <<nb, core, period, first>>
Advance ==
    /\ todo = {} /\ period = 1
    /\ first' = groups /\ groups' = {} /\ period' = 2 /\ todo' = core[2]
    /\ UNCHANGED <<nb, core>>
Next == Take \/ Advance
Spec == Init /\ [][Next]_vars
Idle == todo = {}

Agrees == Idle => groups = Clusters(nb, core[period], Second)
Finest == Idle =>
    LET E == ClusterLinks(nb, core[period], Second)
    IN  /\ IsPartition(UNION E, groups) /\ NoCrossing(groups, E)
        /\ \A g \in groups : Connected(g, E)
CoreInside == Idle => \A i \in core[period] : nb[i] # {} => \E g \in groups : Touch(i) \subseteq g
\* a cluster that appears out of nothing spills over to nobody, and units that
\* were members are never newly reached
SpillSound == (Idle /\ period = 2) => \A u \in V :
    SpillsOver(first, groups, u) => /\ u \notin UNION first
                                    /\ \E v \in V : v # u /\ v \in UNION first /\ \E g \in groups : {u, v} \subseteq g
G4 == {<<{2}, {1, 3}, {2, 4}, {3}>>, <<{2, 3, 4}, {1}, {1}, {1}>>, <<{2}, {1}, {4}, {3}>>}
G5 == {<<{2}, {1, 3}, {2, 4}, {3, 5}, {4}>>, <<{2, 5}, {1, 3}, {2, 4}, {3, 5}, {4, 1}>>, <<{2, 3}, {1, 3}, {1, 2}, {5}, {4}>>}
=============================================================================
