---------------------------- MODULE RankMachine ----------------------------
(* Ranks over time: one cross section arrives per step, and both chains count *)
(* the moves it makes (of units between ranks; of ranks between units).       *)
EXTENDS Ranks, TLC, Json
CONSTANTS N, P, Vals, First
VARIABLES hist, full, geo
vars == <<hist, full, geo>>

Cross == [1..N -> Vals]
Strs(col) == [u \in 1..N |-> RI(col[u])]
R(s) == RankVec(Strs(hist[s]), First)
Rs(col) == RankVec(Strs(col), First)
Holder(rk, r) == CHOOSE u \in 1..N : rk[u] = r

Init == \E c \in Cross : hist = <<c>> /\ full = ZeroCounts(N) /\ geo = ZeroCounts(N)
Next ==
    /\ Len(hist) < P
    /\ \E c \in Cross :
         LET a == TLCEval(R(Len(hist)))
             b == TLCEval(Rs(c))
         IN  /\ hist' = Append(hist, c)
             /\ full' = FoldLeft(LAMBDA z, u : AddMove(z, a[u], b[u]), full, [u \in 1..N |-> u])
             /\ geo' = FoldLeft(LAMBDA z, r : AddMove(z, Holder(a, r), Holder(b, r)), geo, [r \in 1..N |-> r])
Spec == Init /\ [][Next]_vars

Panel == [u \in 1..N |-> [s \in 1..Len(hist) |-> RI(hist[s][u])]]
Steps == Len(hist) - 1
RanksArePermutations == \A s \in 1..Len(hist) : {R(s)[u] : u \in 1..N} = 1..N
LargestFirst == \A s \in 1..Len(hist) : \A u, v \in 1..N : hist[s][u] > hist[s][v] => R(s)[u] < R(s)[v]
TiesInFixedOrder == \A s \in 1..Len(hist) : \A u, v \in 1..N :
    u < v /\ hist[s][u] = hist[s][v] => (R(s)[u] < R(s)[v]) = First
Balanced == \A i \in 1..N : RowTotal(full, i) = Steps /\ ColTotal(full, i) = Steps
                            /\ RowTotal(geo, i) = Steps /\ ColTotal(geo, i) = Steps
\* a unit keeps its rank exactly when that rank keeps its unit
SameStays == SumInt([i \in 1..N |-> full[i][i]]) = SumInt([i \in 1..N |-> geo[i][i]])
Agrees == full = Counts(RankTable(Panel, First), N) /\ geo = Counts(HolderTable(Panel, First), N)
Export == Len(hist) = P => PrintT("CASE " \o ToJson([y |-> [u \in 1..N |-> [s \in 1..P |-> hist[s][u]]]]))
=============================================================================
