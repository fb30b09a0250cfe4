------------------------ MODULE ConnectivityMachine ------------------------
(* Design model of Connectivity.  Mode "graph": links are added in any order  *)
(* and groups merged as they come (a later weight for a pair rebuilds them);  *)
(* mode "contiguity": a worklist search from one remaining unit.              *)
EXTENDS Connectivity, Json
CONSTANTS N, Len0, Mode

VARIABLES adds, groups, nb, ids, leaver, seen, work
vars == <<adds, groups, nb, ids, leaver, seen, work>>
V == 1..N
Pairs == {{a, b} : a, b \in V} \ {{a} : a \in V}
AllLinks == {<<a, b, w>> \in V \X V \X {"0", "1"} : a < b} \cup {<<1, 1, "1">>}
Sorted(S) == SetToSortSeq(S, <)
NbOf(E) == [u \in V |-> Sorted({v \in V : {u, v} \in E})]

Init ==
    \/ /\ Mode = "graph" /\ adds = <<>> /\ groups = {}
       /\ nb = <<>> /\ ids = {} /\ leaver = 0 /\ seen = {} /\ work = {}
    \/ /\ Mode = "contiguity" /\ adds = <<>> /\ groups = {}
       /\ \E E \in SUBSET Pairs : nb = NbOf(E)
       /\ ids \in SUBSET V /\ leaver \in ids
       /\ LET rest == ids \ {leaver}
          IN  IF rest = {} THEN seen = {} /\ work = {}
              ELSE LET s == CHOOSE v \in rest : TRUE IN seen = {s} /\ work = {s}
Merge(G, e) == {g \in G : g \cap e = {}} \cup {e \cup UNION {g \in G : g \cap e # {}}}
Fresh(G, e) == G \cup {{v} : v \in e \ UNION G}
Add ==
    /\ Mode = "graph" /\ Len(adds) < Len0
    /\ \E l \in AllLinks :
         /\ adds' = Append(adds, l)
         /\ LET e == {l[1], l[2]}
                new == \A q \in 1..Len(adds) : {adds[q][1], adds[q][2]} # e
            IN  groups' = IF ~new THEN GraphComponents(adds', "gt", "1/2")
                          ELSE IF l[3] = "1" THEN Merge(Fresh(groups, e), e) ELSE Fresh(groups, e)
    /\ UNCHANGED <<nb, ids, leaver, seen, work>>
Search ==
    /\ Mode = "contiguity"
    /\ \E u \in work :
         LET new == (Range(nb[u]) \cap (ids \ {leaver})) \ seen
         IN  seen' = seen \cup new /\ work' = (work \ {u}) \cup new
    /\ UNCHANGED <<adds, groups, nb, ids, leaver>>
Next == Add \/ Search
Spec == Init /\ [][Next]_vars

GroupsAgree == Mode = "graph" => groups = GraphComponents(adds, "gt", "1/2")
GroupsFinest == Mode = "graph" =>
    LET E == StrongLinks(adds, "gt", "1/2")
    IN  IsPartition(NodesOf(adds), groups) /\ NoCrossing(groups, E) /\ \A g \in groups : Connected(g, E)
SearchAgrees == (Mode = "contiguity" /\ work = {}) =>
    (seen = ids \ {leaver}) = StaysConnected(nb, Sorted(ids), leaver)
Export ==
    /\ (Mode = "graph" /\ Len(adds) = Len0) => PrintT("CASE " \o ToJson([adds |-> adds]))
    /\ (Mode = "contiguity" /\ work = {}) => PrintT("CASE " \o ToJson([nb |-> nb, ids |-> Sorted(ids), leaver |-> leaver]))
=============================================================================
