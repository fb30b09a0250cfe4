--------------------------- MODULE RoseInference ---------------------------
(* A rose and its permutation inference as a machine: nature fixes the values *)
(* of the units at two times; every permutation reassigns whole trajectories  *)
(* to the units of a ring and adds the counts of the result; a call of        *)
(* permute starts the tallies afresh.                                         *)
EXTENDS Rose, Json
CONSTANTS N, Vals, R, Calls
VARIABLES y, order, sims, calls
vars == <<y, order, sims, calls>>
\* each unit's neighbours are the units next to it on a path
W == [u \in 1..N |-> SelectSeq(<<<<u - 1, "1">>, <<u + 1, "1">>>>, LAMBDA p : p[1] \in 1..N)]
AsRats(p) == [u \in 1..N |-> [s \in 1..2 |-> RI(p[u][s])]]
CountsIn(o) == CountsOf(Vectors(AsRats([u \in 1..N |-> y[o[u]]]), W), 4, Sector4)
Identity == [u \in 1..N |-> u]
Observed == CountsIn(Identity)
Init ==
    /\ y \in [1..N -> Vals \X Vals] /\ order = Identity /\ sims = <<>> /\ calls = 0
Permute == \* the next permutation of the running call
    /\ calls > 0 /\ Len(sims) < R
    /\ \E o \in Permutations1(N) : order' = o /\ sims' = Append(sims, CountsIn(o))
    /\ UNCHANGED <<y, calls>>
Call ==
    /\ calls < Calls /\ (calls > 0 => Len(sims) = R)
    /\ calls' = calls + 1 /\ sims' = <<>>
    /\ UNCHANGED <<y, order>>
Spec == Init /\ [][Permute \/ Call]_vars
\* every permutation counts every unit, and keeps each unit's own change
AllCounted == \A m \in 1..Len(sims) : SumInt(sims[m]) = N
HalvesKept == \* numbers of units moving up, down, or not at all
    \A m \in 1..Len(sims) :
        /\ sims[m][1] + sims[m][4] >= Cardinality({u \in 1..N : y[u][2] > y[u][1]})
        /\ sims[m][2] + sims[m][3] >= Cardinality({u \in 1..N : y[u][2] < y[u][1]})
Col4(s) == [m \in 1..Len(sims) |-> RI(sims[m][s])]
Up(s) == RN(AtLeast(Col4(s), RI(Observed[s])) + 1, Len(sims) + 1)
Down(s) == RN(AtMost(Col4(s), RI(Observed[s])) + 1, Len(sims) + 1)
Mirrored == \A s \in 1..4 :
    /\ RoseP("positive", 4, s, Up(s), Down(s)) = RoseP("negative", 4, s, Down(s), Up(s))
    /\ RoseP("positive", 4, s, Up(s), Down(s)) = RoseP("negative", 4, Wrap(s + 1, 4), Up(s), Down(s))
    /\ RLeq(RSub("1", RN(1, Len(sims) + 1)), RAdd(Up(s), Down(s)))
TwoSidedRange == \A s \in 1..4 : LET p == RoseP("two", 4, s, Up(s), Down(s)) IN RLeq("0", p) /\ RLeq(p, "1")
Export == (sims = <<>> /\ calls = 0) => PrintT("CASE " \o ToJson([y |-> y]))
Forget == [][(calls' # calls => sims' = <<>>) /\ y' = y]_vars
=============================================================================
