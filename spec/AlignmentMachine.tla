------------------------- MODULE AlignmentMachine -------------------------
(* Optimal matching as a machine: the score table of two sequences is filled  *)
(* one cell at a time, in any order in which a cell follows its neighbours;   *)
(* D[i][j] is the score of the first i and j elements.                        *)
EXTENDS Alignment, Json
CONSTANTS MaxLen, K, Subs, Indels
VARIABLES a, b, sub, ind, D
vars == <<a, b, sub, ind, D>>

Strings == UNION {[1..n -> 1..K] : n \in 1..MaxLen}
\* symmetric hollow cost matrices
Matrices == {[i \in 1..K |-> [j \in 1..K |-> IF i = j THEN 0 ELSE f[{i, j}]]] : f \in [{{i, j} : i, j \in 1..K} -> Subs]}
Cost(i, j) == RI(sub[i][j])
Unset == -1
Init ==
    /\ a \in Strings /\ b \in Strings /\ sub \in Matrices /\ ind \in Indels
    /\ D = [i \in 0..Len(a) |-> [j \in 0..Len(b) |-> IF i = 0 THEN ind * j ELSE IF j = 0 THEN ind * i ELSE Unset]]
Fill(i, j) ==
    /\ D[i][j] = Unset
    /\ D[i - 1][j] # Unset /\ D[i][j - 1] # Unset /\ D[i - 1][j - 1] # Unset
    /\ D' = [D EXCEPT ![i][j] = MinInt({D[i - 1][j] + ind, D[i][j - 1] + ind, D[i - 1][j - 1] + sub[a[i]][b[j]]})]
    /\ UNCHANGED <<a, b, sub, ind>>
Next == \E i \in 1..Len(a), j \in 1..Len(b) : Fill(i, j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == D[Len(a)][Len(b)] # Unset
Start == D[1][1] = Unset
Terminates == <>Done

\* whatever the order, the last cell is the least cost of an alignment
Optimal == Done => LeastCost(a, b, Cost, RI(ind)) = RI(D[Len(a)][Len(b)])
SameAsRows == Done => OM(a, b, Cost, RI(ind)) = RI(D[Len(a)][Len(b)])
\* each cell costs at most one insertion or deletion more than its neighbours
Smooth == \A i \in 1..Len(a), j \in 1..Len(b) : D[i][j] # Unset =>
    /\ D[i][j] <= D[i - 1][j] + ind /\ D[i][j] <= D[i][j - 1] + ind
    /\ D[i][j] >= ind * Abs(i - j)
\* ---- of the distances themselves
d == D[Len(a)][Len(b)]
Zero == (Done /\ a = b) => d = 0
Symmetric == Done => OM(b, a, Cost, RI(ind)) = RI(d)
Reversal == Done => OM(Reverse(a), Reverse(b), Cost, RI(ind)) = RI(d)
AtMostHamming == (Done /\ Len(a) = Len(b)) => d <= SumInt([i \in 1..Len(a) |-> sub[a[i]][b[i]]])
\* with unit costs and dear insertions the distance is the Hamming distance
HammingAsOM == Start => (Len(a) = Len(b) => OM(a, b, HammingCost, RI(Len(a) + 1)) = RI(Hamming(a, b)))
Renamed == Start => LET r(s) == [i \in 1..Len(s) |-> K + 1 - s[i]] IN
    OM(r(a), r(b), LAMBDA i, j : RI(sub[K + 1 - i][K + 1 - j]), RI(ind)) = OM(a, b, Cost, RI(ind))
TranMetric == Start => /\ Tran(a, a) = "0" /\ Tran(a, b) = Tran(b, a)
                       /\ RLeq(RI(2 * Abs(Len(a) - Len(b))), Tran(a, b))
                       /\ LeastCost(AsMoves(a), AsMoves(b), TranCost, "2") = Tran(a, b)
Export == Start => PrintT("CASE " \o ToJson([a |-> a, b |-> b, sub |-> sub, indel |-> ind]))
=============================================================================
