------------------------- MODULE HomogeneityMachine -------------------------
(* Design model of Homogeneity: the regimes are observed one after the other; *)
(* pooled counts and the numbers behind the degrees of freedom accumulate.    *)
EXTENDS Homogeneity, Json
CONSTANTS MM, RR, KK, Vals

VARIABLES M, h, pooled, b
vars == <<M, h, pooled, b>>
Init == /\ M \in [1..MM -> [1..RR -> [1..KK -> Vals]]]
        /\ h = 0
        /\ pooled = [i \in 1..RR |-> [j \in 1..KK |-> 0]]
        /\ b = [i \in 1..RR |-> 0]
Observe ==
    /\ h < MM /\ h' = h + 1
    /\ pooled' = [i \in 1..RR |-> [j \in 1..KK |-> pooled[i][j] + M[h + 1][i][j]]]
    /\ b' = [i \in 1..RR |-> b[i] + (IF SumInt(M[h + 1][i]) > 0 THEN 1 ELSE 0)]
    /\ UNCHANGED M
Spec == Init /\ [][Observe]_vars
Done == h = MM

Accumulated == Done =>
    /\ pooled = Pooled(M)
    /\ DoF(M) = SumInt([i \in 1..RR |-> IF SumInt(pooled[i]) = 0 THEN 0
                  ELSE (b[i] - 1) * (Cardinality({j \in 1..KK : pooled[i][j] > 0}) - 1)])
    /\ DoF(M) >= 0
\* Pearson's statistic in its usual form, (observed - expected)^2 / expected
Pearson == Done => Total3(QTable(M)) =
    RSum([g \in 1..MM |-> Chi2Stat(M[g], Pooled(M))])
ZeroIffAgree == Done =>
    /\ (RZero(Total3(QTable(M))) <=> Agree(M))
    /\ RClose(Total3(LTable(M)), "0", "0", Tiny) <=> Agree(M)
NonNegative == Done => RLeq("0", Total3(QTable(M))) /\ RLeq("-1/1000000000000", Total3(LTable(M)))
\* Kullback's statistic is the likelihood ratio statistic
KullbackIsLR == Done => RClose(Kullback(M), Total3(LTable(M)), "0", Tiny)
Export == Done => PrintT("CASE " \o ToJson([M |-> M]))
V1 == 0..1
V2 == 0..2
V3 == 0..3
V5 == {0, 1, 2, 5}
=============================================================================
