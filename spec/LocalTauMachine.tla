--------------------------- MODULE LocalTauMachine ---------------------------
(* The decompositions of tau: pairs of units are compared one at a time, and  *)
(* each comparison is credited to the two units, to the neighbour sums when   *)
(* they are neighbours, to the neighbourhoods that contain both, and to the   *)
(* pair of their regimes.  In the end the parts recombine to the whole.       *)
EXTENDS Tau, Json
CONSTANTS N, Vals, XS, R
XS3 == {<<1, 2, 3>>, <<1, 1, 2>>, <<2, 1, 2>>}
XS4 == {<<1, 2, 3, 4>>, <<1, 2, 2, 3>>, <<2, 1, 1, 2>>}
VARIABLES x, y, nb, reg, todo, unit, link, hood, regn, total
vars == <<x, y, nb, reg, todo, unit, link, hood, regn, total>>
Adj(E) == [i \in 1..N |-> SetToSeq({j \in 1..N : {i, j} \in E})]
Edges == {{p[1], p[2]} : p \in Pairs(N)}
Graphs == {Adj(E) : E \in {F \in SUBSET Edges : \A i \in 1..N : \E e \in F : i \in e}}
Regs == {r \in [1..N -> 1..R] : \A q \in 1..MaxInt(Range(r)) : q \in Range(r)}
Zero == [i \in 1..N |-> 0]
Init ==
    /\ x \in XS /\ y \in [1..N -> Vals] /\ nb \in Graphs /\ reg \in Regs
    /\ todo = 1 /\ unit = Zero /\ link = Zero /\ hood = Zero
    /\ regn = [a \in 1..R |-> [b \in 1..R |-> 0]] /\ total = 0
Order == SetToSeq(Pairs(N))
Next ==
    /\ todo <= Len(Order)
    /\ LET p == Order[todo]
           i == p[1]
           j == p[2]
           s == Conc(x, y, i, j)
           near == j \in Range(nb[i])
       IN  /\ unit' = [unit EXCEPT ![i] = @ + s, ![j] = @ + s]
           /\ link' = IF near THEN [link EXCEPT ![i] = @ + s, ![j] = @ + s] ELSE link
           /\ hood' = [h \in 1..N |-> IF {i, j} \subseteq Hood(nb, h) THEN hood[h] + 2 * s ELSE hood[h]]
           /\ regn' = IF reg[i] = reg[j] THEN [regn EXCEPT ![reg[i]][reg[i]] = @ + 2 * s]
                      ELSE [regn EXCEPT ![reg[i]][reg[j]] = @ + s, ![reg[j]][reg[i]] = @ + s]
           /\ total' = total + s
    /\ todo' = todo + 1 /\ UNCHANGED <<x, y, nb, reg>>
Spec == Init /\ [][Next]_vars
Done == todo > Len(Order)
Sm == SMatrix(x, y)
Conserved == SumInt(unit) = 2 * total /\ SumInt([a \in 1..R |-> SumInt(regn[a])]) = 2 * total
LocalAgrees == Done => \A i \in 1..N : RN(unit[i], N - 1) = LocalTau(Sm, i)
LocalAverages == Done => RDiv(RSum([i \in 1..N |-> LocalTau(Sm, i)]), RI(N)) = MeanTau(Sm)
MeanIsTau == (Done /\ UntiedX(x, Pairs(N)) = UntiedX(y, Pairs(N)) /\ UntiedX(x, Pairs(N)) = Cardinality(Pairs(N))) => MeanTau(Sm) = TauB(x, y)
NeighborAgrees == Done => \A i \in 1..N : RN(link[i], Len(nb[i])) = NeighborTau(Sm, nb, i)
NeighborRecombines == Done =>
    RSum([i \in 1..N |-> RMul(NeighborWeight(nb, i), NeighborTau(Sm, nb, i))]) = RN(SumInt(link), LinkCount(nb))
WeightsAddUp == Done => RSum([i \in 1..N |-> NeighborWeight(nb, i)]) = "1"
NeighborIsSpatial == (Done /\ \A p \in Links(nb) : x[p[1]] # x[p[2]] /\ y[p[1]] # y[p[2]]) =>
    RN(SumInt(link), LinkCount(nb)) = SpatialTauOf(x, y, nb)
HoodAgrees == Done => \A i \in 1..N : RN(hood[i], (Len(nb[i]) + 1) * Len(nb[i])) = GroupTau(Sm, Hood(nb, i))
RegionalAgrees == Done => \A a, b \in 1..NumReg(reg) :
    LET n == IF a = b THEN Cardinality(Members(reg, a)) * (Cardinality(Members(reg, a)) - 1)
             ELSE Cardinality(Members(reg, a)) * Cardinality(Members(reg, b))
    IN  RN(regn[a][b], n) = RegionalTau(Sm, reg, a, b)
InRange == Done => \A i \in 1..N : RLeq(RAbs(LocalTau(Sm, i)), "1") /\ RLeq(RAbs(NeighborTau(Sm, nb, i)), "1")
Export == Done => PrintT("CASE " \o ToJson([a |-> x, b |-> y, nb |-> nb, reg |-> reg]))
=============================================================================
