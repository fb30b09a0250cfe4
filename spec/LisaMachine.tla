---------------------------- MODULE LisaMachine ----------------------------
(* Design model of Lisa: a panel is read unit by unit; every unit's moves     *)
(* between quadrants are typed and counted, under both numberings.            *)
EXTENDS Lisa, Json
CONSTANTS N, TT, Vals, Graphs
VARIABLES y, W, u, s, C, G, types
vars == <<y, W, u, s, C, G, types>>

Panel == [i \in 1..N |-> [j \in 1..TT |-> RI(y[i][j])]]
\* signs of deviation and lagged deviation, exactly
Signs(p, i, j) == QuadrantsOf(W, Column(p, j), i, "0", "0")
Q(p, i, j, geoda) == LET e == CHOOSE e \in Signs(p, i, j) : TRUE IN Quadrant(e[1], e[2], geoda)
Swap(q) == CASE q = 2 -> 3 [] q = 3 -> 2 [] OTHER -> q

Init == /\ y \in [1..N -> [1..TT -> Vals]] /\ W \in Graphs
        /\ \A j \in 1..TT : Cardinality({y[i][j] : i \in 1..N}) > 1
        /\ u = 1 /\ s = 1 /\ C = ZeroCounts(4) /\ G = ZeroCounts(4) /\ types = <<>>
Next == /\ u <= N
        /\ LET a == Q(Panel, u, s, FALSE)
               b == Q(Panel, u, s + 1, FALSE)
           IN  /\ C' = AddMove(C, a, b)
               /\ G' = AddMove(G, Q(Panel, u, s, TRUE), Q(Panel, u, s + 1, TRUE))
               /\ types' = Append(types, MoveType(a, b))
        /\ IF s + 1 < TT THEN s' = s + 1 /\ u' = u ELSE s' = 1 /\ u' = u + 1
        /\ UNCHANGED <<y, W>>
Spec == Init /\ [][Next]_vars
Begun == u = 1 /\ s = 1
Done == u > N
Cells == (1..N) \X (1..TT)

\* every unit is in exactly one quadrant
OneQuadrant == Begun => \A c \in Cells : Cardinality(Signs(Panel, c[1], c[2])) = 1
\* quadrants say whether value and lag are above
Decoded == Begun => \A c \in Cells : \A g \in BOOLEAN :
    LET e == CHOOSE e \in Signs(Panel, c[1], c[2]) : TRUE
        q == Quadrant(e[1], e[2], g)
    IN  OwnHigh(q) = e[1] /\ LagHigh(q, g) = e[2]
\* neither the origin of the scale nor its unit matter
Moved == [i \in 1..N |-> [j \in 1..TT |-> RAdd(RMul("5/2", Panel[i][j]), RI(j - 7))]]
AnyScale == Begun => \A c \in Cells : Signs(Moved, c[1], c[2]) = Signs(Panel, c[1], c[2])
\* deviations add up to zero: not all units are on one side
BothSides == Begun => \A j \in 1..TT :
    /\ \E i \in 1..N : Q(Panel, i, j, FALSE) \in {1, 4}
    /\ \E i \in 1..N : Q(Panel, i, j, FALSE) \in {2, 3}
\* the numbering of GeoDa exchanges two of the quadrants
Renumbered == \A a, b \in 1..4 : G[Swap(a)][Swap(b)] = C[a][b]
\* moves are typed one to one
TypesTell == /\ \A t \in ToSet(types) : t \in 1..16
             /\ \A a, b \in 1..4 : C[a][b] = Cardinality({i \in 1..Len(types) : types[i] = MoveType(a, b)})
Codes == Begun =>
    Cardinality({MoveType(a, b) + Significant(p, q) : a, b \in 1..4, p, q \in BOOLEAN}) = 64
Total == Done => SumInt(RowSums(C)) = N * (TT - 1)
\* as if independent: as many moves leave each quadrant, provided both chains
\* leave each of their states, and the numbering plays no role
Lagy == LagPanel(W, Panel)
SideTab(p) == NotBelow(p, LAMBDA j : Mean(Column(Panel, j)))
Leaves(tab) == \A side \in BOOLEAN : \E i \in 1..N : \E j \in 1..(TT - 1) : tab[i][j] = side
IndependentMoves == Done =>
    LET E == ExpectedOf(Panel, Lagy, RowSums(C), FALSE)
        F == ExpectedOf(Panel, Lagy, RowSums(G), TRUE)
    IN  /\ \A a, b \in 1..4 : RLeq("0", E[a][b]) /\ REq(F[Swap(a)][Swap(b)], E[a][b])
        /\ (Leaves(SideTab(Panel)) /\ Leaves(SideTab(Lagy))) => \A a \in 1..4 : REq(RSum(E[a]), RI(RowSums(C)[a]))
        /\ RLeq("0", Chi2Real(C, E))
        /\ (\A a, b \in 1..4 : E[a][b] = RI(C[a][b])) => Chi2Real(C, E) = "0"
Export == Begun => PrintT("CASE " \o ToJson([y |-> y, w |-> W]))

\* a ring of four, and a path whose ends have one neighbour
R4 == <<<<<<2, "1/2">>, <<4, "1/2">>>>, <<<<1, "1/2">>, <<3, "1/2">>>>, <<<<2, "1/2">>, <<4, "1/2">>>>, <<<<3, "1/2">>, <<1, "1/2">>>>>>
P4 == <<<<<<2, "1">>>>, <<<<1, "1/2">>, <<3, "1/2">>>>, <<<<2, "1/2">>, <<4, "1/2">>>>, <<<<3, "1">>>>>>
GR == {R4, P4}
GP == {P4}
=============================================================================
