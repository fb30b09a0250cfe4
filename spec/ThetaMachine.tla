---------------------------- MODULE ThetaMachine ----------------------------
(* Every unit starts as a regime of its own; a step merges two regimes.       *)
EXTENDS Theta, Json
CONSTANTS N, Firsts, Vals
F3 == [1..3 -> 1..3]
F4 == {f \in [1..4 -> 1..4] : f[1] = 1 /\ \A i \in 1..3 : f[i + 1] \in {f[i], f[i] + 1}}
VARIABLES first, second, parts
vars == <<first, second, parts>>
Init ==
    /\ first \in Firsts /\ second \in [1..N -> Vals]
    /\ parts = {{u} : u \in 1..N}
Next ==
    /\ \E A, B \in parts : A # B /\ parts' = (parts \ {A, B}) \cup {A \cup B}
    /\ UNCHANGED <<first, second>>
Spec == Init /\ [][Next]_vars
Y == [u \in 1..N |-> <<first[u], second[u]>>]
D == Change2(Ranks2(Y), 1)
Th(ps) == ThetaOf(D, ps)
Moves == Total2(D) > 0
RanksAddUp == \A s \in 1..2 : SumInt([u \in 1..N |-> Rank2(Y, s, u)]) = N * (N + 1)
InRange == Moves => RLeq("0", Th(parts)) /\ RLeq(Th(parts), "1")
AllOwn == (Moves /\ Cardinality(parts) = N) => Th(parts) = "1"
AllOne == (Moves /\ Cardinality(parts) = 1) => Th(parts) = "0"
\* one exactly when no regime contains units moving in opposite directions
Blocks == Moves => ((Th(parts) = "1") = (\A G \in parts : (\A u \in G : D[u] >= 0) \/ (\A u \in G : D[u] <= 0)))
AtMostMaximum == Total2(D) <= 2 * MaxTotal(N)
MergingLowers == [][Moves => RLeq(Th(parts'), Th(parts))]_vars
Label == [u \in 1..N |-> MinInt(CHOOSE G \in parts : u \in G)]
Export == PrintT("CASE " \o ToJson([y |-> Y, reg |-> Label]))
=============================================================================
