-------------------------- MODULE InferenceMachine --------------------------
(* Permutation inference as a machine: nature fixes what value each of C      *)
(* equally likely reassignments has and which one was observed; each step     *)
(* draws one reassignment and updates the two counters, from which the pseudo *)
(* p-values are computed at any time.                                         *)
EXTENDS Draws
CONSTANTS C, R, V
VARIABLES value, obs, sims, larger, smaller
vars == <<value, obs, sims, larger, smaller>>
Init ==
    /\ value \in [1..C -> 1..V] /\ obs \in 1..C
    /\ sims = <<>> /\ larger = 0 /\ smaller = 0
Draw ==
    /\ Len(sims) < R
    /\ \E c \in 1..C :
         /\ sims' = Append(sims, RI(value[c]))
         /\ larger' = larger + (IF value[c] >= value[obs] THEN 1 ELSE 0)
         /\ smaller' = smaller + (IF value[c] <= value[obs] THEN 1 ELSE 0)
    /\ UNCHANGED <<value, obs>>
Spec == Init /\ [][Draw]_vars

n == Len(sims)
o == RI(value[obs])
Counters == larger = AtLeast(sims, o) /\ smaller = AtMost(sims, o) /\ larger + smaller >= n
Multiples == \A p \in {UpperP(sims, o), FoldedP(sims, o), SmallerTailP(sims, o)} :
    RIsInt(RMul(p, RI(n + 1))) /\ RLt("0", p) /\ RLeq(p, "1")
Folded == n > 0 => RLeq(FoldedP(sims, o), RN(n + 2, 2 * (n + 1)))
\* the upper tail is as documented, and folding never raises it
FoldLowers == n > 0 => (RLeq(FoldedP(sims, o), RAdd(UpperP(sims, o), RN(1, n + 1))))
SmallerIsMin == SmallerTailP(sims, o) = RMin(UpperP(sims, o), RN(1 + smaller, n + 1))
\* shares that count the observed value among all
Shares == LET all == <<o>> \o sims IN
    RAdd(LeftShare(all), RightShare(all)) = "1" /\ LeftShare(all) = RN(1 + smaller, n + 1)
\* a draw changes each counter by at most one, and at least one of them
Step == [][(larger' - larger) \in {0, 1} /\ (smaller' - smaller) \in {0, 1} /\ larger' + smaller' > larger + smaller]_vars
\* validity: over all equally likely observed cases and histories of n draws, the
\* upper tail p-value is at most j/(n+1) with probability at most j/(n+1)
Histories(k) == [1..k -> 1..C]
Valid == (sims = <<>> /\ obs = 1) =>
    \A j \in 1..R :
        LET low == Cardinality({h \in (1..C) \X Histories(R) :
                       1 + Cardinality({r \in 1..R : value[h[2][r]] >= value[h[1]]}) <= j})
        IN  low * (R + 1) <= j * Cardinality((1..C) \X Histories(R))
=============================================================================
