--------------------------- MODULE SpatialMachine ---------------------------
(* Design model of SpatialMarkov: the panel is read period by period, unit by *)
(* unit; the lag is classified when a move begins (ties of labels by choice). *)
EXTENDS SpatialMarkov, Json
CONSTANTS N, TT, Vals, Graphs, Cuts, LagCuts, Discrete

VARIABLES y, W, cut, lcut, u, s, T, U
vars == <<y, W, cut, lcut, u, s, T, U>>

K == IF Discrete THEN Cardinality(Vals) ELSE Len(cut) + 1
M == IF Discrete THEN K ELSE Len(lcut) + 1
R(v) == RI(v)
Panel == [i \in 1..N |-> [j \in 1..TT |-> R(y[i][j])]]
Own(i, j) == IF Discrete THEN y[i][j] ELSE ClassOfValue(R(y[i][j]), cut) + 1
LagChoices(i, j) ==
    IF Discrete THEN Modes(W, Column(y, j), i, Vals, "0")
    ELSE {ClassOfValue(LagOf(W, Column(Panel, j), i), lcut) + 1}

Init ==
    /\ y \in [1..N -> [1..TT -> Vals]]
    /\ W \in Graphs
    /\ cut \in Cuts /\ lcut \in LagCuts
    /\ u = 1 /\ s = 1
    /\ T = ZeroCond(M, K) /\ U = ZeroCounts(K)
Move ==
    /\ s < TT
    /\ \E l \in LagChoices(u, s) :
          /\ T' = AddCond(T, l, Own(u, s), Own(u, s + 1))
          /\ U' = AddMove(U, Own(u, s), Own(u, s + 1))
    /\ IF u < N THEN u' = u + 1 /\ s' = s ELSE u' = 1 /\ s' = s + 1
    /\ UNCHANGED <<y, W, cut, lcut>>
Next == Move
Spec == Init /\ [][Next]_vars

AddsUp == \A i, j \in 1..K : SumInt([l \in 1..M |-> T[l][i][j]]) = U[i][j]
Begun == s = 1 /\ u = 1
Classified == ~Discrete /\ Begun => \A i \in 1..N, j \in 1..TT :
    \A c \in 0..Len(cut) : InClass(R(y[i][j]), cut, c) <=> c + 1 = Own(i, j)
SomeMode == Discrete /\ Begun => \A i \in 1..N, j \in 1..TT : LagChoices(i, j) # {}
\* a label that more than half of the neighbours' weight carries is the lag
Majority == Discrete /\ Begun => \A i \in 1..N, j \in 1..TT : \A c \in Vals :
    RLt(RMul(RI(Len(W[i])), MeanWeight(W, i)), RMul("2", Tally(W, Column(y, j), i, c)))
        => LagChoices(i, j) = {c}
Done == s = TT
Counted == Done /\ ~Discrete =>
    LET own == [i \in 1..N |-> [j \in 1..TT |-> Own(i, j)]]
        lag == [i \in 1..N |-> [j \in 1..TT |-> CHOOSE l \in LagChoices(i, j) : TRUE]]
    IN  /\ T = CondCounts(own, lag, M, K)
        /\ U = Counts(own, K)
        /\ \A l \in 1..M, i, j \in 1..K : T[l][i][j] = CondCount(own, lag, l, i, j)
Export == Begun => PrintT("CASE " \o ToJson([y |-> y, w |-> W, cut |-> cut, lcut |-> lcut, discrete |-> Discrete]))

G3 == {<<<<<<2, "1">>>>, <<<<1, "1/2">>, <<3, "1/2">>>>, <<<<2, "1">>>>>>,
       <<<<<<2, "1">>, <<3, "1">>>>, <<<<1, "1">>, <<3, "2">>>>, <<<<2, "2">>, <<1, "1">>>>>>}
V3 == {1, 2, 3}
C1 == {<<"1">>, <<"1", "2">>}
C1T == {<<"1", "2">>}
L1T == {<<"3/2">>}
L1 == {<<"3/2">>, <<"1", "2", "3">>}
G3I == G3 \cup {<<<<<<2, "1">>>>, <<<<1, "1">>>>, <<>>>>} \* one without the last unit
NoCut == {<<>>}
G4 == {<<<<<<2, "1">>, <<4, "1">>>>, <<<<1, "1">>, <<3, "1">>>>, <<<<2, "1">>, <<4, "1">>>>, <<<<3, "1">>, <<1, "1">>>>>>,
       <<<<<<2, "1">>, <<3, "1">>, <<4, "1">>>>, <<<<1, "1">>>>, <<<<1, "1">>>>, <<<<1, "1">>>>>>}
=============================================================================
