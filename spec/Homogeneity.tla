---------------------------- MODULE Homogeneity ----------------------------
(* Tests of homogeneity of transition matrices.  M[h] is the matrix of counts *)
(* of regime h, not necessarily square.                                       *)
EXTENDS Base, TLC

NR(M) == Len(M[1])
NC(M) == Len(M[1][1])
Pooled(M) == TLCEval([i \in 1..NR(M) |-> [j \in 1..NC(M) |-> SumInt([h \in 1..Len(M) |-> M[h][i][j]])]])
RowSums(C) == TLCEval([i \in 1..Len(C) |-> SumInt(C[i])])
Proportions(C) ==
    LET s == RowSums(C)
    IN  TLCEval([i \in 1..Len(C) |-> [j \in 1..Len(C[1]) |-> IF s[i] = 0 THEN "0" ELSE RN(C[i][j], s[i])]])

\* contributions of a cell
QCell(n, ph, p) == IF RZero(p) THEN "0" ELSE RDiv(RMul(RI(n), RSq(RSub(ph, p))), p)
LCell(c, ph, p) == IF c = 0 THEN "0" ELSE RMul(RI(2 * c), RLog(RDiv(ph, p)))

QTable(M) ==
    LET P == Proportions(Pooled(M))
    IN  TLCEval([h \in 1..Len(M) |->
            LET Ph == Proportions(M[h]) s == RowSums(M[h])
            IN  [i \in 1..NR(M) |-> [j \in 1..NC(M) |-> QCell(s[i], Ph[i][j], P[i][j])]]])
LTable(M) ==
    LET P == Proportions(Pooled(M))
    IN  TLCEval([h \in 1..Len(M) |->
            LET Ph == Proportions(M[h])
            IN  [i \in 1..NR(M) |-> [j \in 1..NC(M) |-> LCell(M[h][i][j], Ph[i][j], P[i][j])]]])
Total3(X) == RSum([h \in 1..Len(X) |-> RSum([i \in 1..Len(X[h]) |-> RSum(X[h][i])])])

\* regimes observing row i, nonzero pooled entries of row i
Observing(M, i) == {h \in 1..Len(M) : \E j \in 1..NC(M) : M[h][i][j] > 0}
NonZero(M, i) == {j \in 1..NC(M) : \E h \in 1..Len(M) : M[h][i][j] > 0}
DoF(M) == SumInt([i \in 1..NR(M) |->
             IF NonZero(M, i) = {} THEN 0
             ELSE (Cardinality(Observing(M, i)) - 1) * (Cardinality(NonZero(M, i)) - 1)])

\* the regimes that observe a row agree on its proportions
Agree(M) == \A g, h \in 1..Len(M) : \A i \in 1..NR(M) :
    (g \in Observing(M, i) /\ h \in Observing(M, i))
        => Proportions(M[g])[i] = Proportions(M[h])[i]

\* n log n
NLogN(n) == IF n = 0 THEN "0" ELSE RMul(RI(n), RLog(RI(n)))
Kullback(M) ==
    LET T == Pooled(M)
        ts == RowSums(T)
    IN  RMul("2",
          RSub(RAdd(RSum([h \in 1..Len(M) |-> RSum([i \in 1..NR(M) |-> RSum([j \in 1..NC(M) |-> NLogN(M[h][i][j])])])]),
                    RSum([i \in 1..NR(M) |-> NLogN(ts[i])])),
               RAdd(RSum([h \in 1..Len(M) |-> LET s == RowSums(M[h]) IN RSum([i \in 1..NR(M) |-> NLogN(s[i])])]),
                    RSum([i \in 1..NR(M) |-> RSum([j \in 1..NC(M) |-> NLogN(T[i][j])])]))))
KullbackDoF(M) == NR(M) * (Len(M) - 1) * (NR(M) - 1)

\* comparison of one matrix of counts with the proportions of another
Chi2Stat(A, B) ==
    LET P == Proportions(B)
        s == RowSums(A)
        cell(i, j) == LET e == RMul(RI(s[i]), P[i][j])
                      IN  IF RZero(e) THEN "0" ELSE RDiv(RSq(RSub(RI(A[i][j]), e)), e)
    IN  RSum([i \in 1..Len(A) |-> RSum([j \in 1..Len(A[1]) |-> cell(i, j)])])
Chi2DoF(A, B) ==
    (Cardinality({i \in 1..Len(A) : SumInt(A[i]) > 0}) - 1) * (Cardinality({i \in 1..Len(B) : SumInt(B[i]) > 0}) - 1)

-----------------------------------------------------------------------------
\* p-value of statistic x with d degrees of freedom; with none it says nothing
PValue(p, x, d) == IF d <= 0 THEN TRUE ELSE RClose(p, Chi2SF(RMax(x, "0"), d), "0", Tol)
NearStat(a, b) == RClose(a, b, Tol, Tol)

Tables(A, X, m, r, k) ==
    IsShape(A, <<m, r, k>>) /\ \A h \in 1..m : \A i \in 1..r : \A j \in 1..k : NearStat(At3(A, h, i, j), X[h][i][j])

JudgeHomogeneity(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET M == in.M
             m == Len(M)
             r == NR(M)
             k == NC(M)
             Q == QTable(M)
             L == LTable(M)
             q == TLCEval(Total3(Q))
             lr == TLCEval(Total3(L))
             d == DoF(M)
             P == Proportions(Pooled(M))
         IN  Chk(NearStat(out.Q, q), "Q")
             \cup Chk(NearStat(out.LR, lr), "LR")
             \cup Chk(out.dof = d, "dof")
             \cup Chk(PValue(out.Qp, out.Q, d) /\ PValue(out.LRp, out.LR, d), "p-values")
             \cup Chk(Tables(out.Qtable, Q, m, r, k) /\ Tables(out.LRtable, L, m, r, k), "tables")
             \cup Chk(/\ NearStat(RSum(out.Qtable.d), out.Q) /\ NearStat(RSum(out.LRtable.d), out.LR), "tables-add-up")
             \cup Chk(IsShape(out.p0, <<r, k>>) /\ \A i \in 1..r : \A j \in 1..k : Exact(At2(out.p0, i, j), P[i][j]), "pooled-proportions")
             \cup Chk(IsShape(out.p1, <<m, r, k>>) /\ \A h \in 1..m :
                         LET Ph == Proportions(M[h]) IN \A i \in 1..r : \A j \in 1..k : Exact(At3(out.p1, h, i, j), Ph[i][j]), "regime-proportions")
             \cup Chk(/\ out.total = SumInt(RowSums(Pooled(M)))
                      /\ out.m = m /\ out.k = k
                      /\ out.A = [i \in 1..r |-> Cardinality(NonZero(M, i))]
                      /\ out.b = [i \in 1..r |-> Cardinality(Observing(M, i))], "numbers")
             \* of each row and regime: how many entries it observes, whether it observes any
             \cup Chk(/\ IsShape(out.Aim, <<r, m>>) /\ IsShape(out.B, <<r, m>>)
                      /\ \A i \in 1..r : \A h \in 1..m :
                            LET a == Cardinality({j \in 1..k : M[h][i][j] > 0})
                            IN  At2(out.Aim, i, h) = a /\ At2(out.B, i, h) = IF a > 0 THEN 1 ELSE 0, "observed-entries")
             \cup Chk(IF Agree(M) THEN RClose(out.Q, "0", "0", Tol) /\ RClose(out.LR, "0", "0", Tol)
                      ELSE RPos(out.Q) /\ RPos(out.LR), "zero-when-agreeing")

JudgeKullback(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET x == TLCEval(Kullback(in.M))
             t == SumInt(RowSums(Pooled(in.M)))
             d == KullbackDoF(in.M)
         IN  Chk(RClose(out.stat, x, Tol, RMul("1/10000000000", RI(1 + 40 * t))), "statistic")
             \cup Chk(out.dof = d, "dof")
             \cup Chk(PValue(out.p, out.stat, d), "p-value")

JudgeChi2(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET d == Chi2DoF(in.A, in.B)
         IN  Chk(NearStat(out.stat, Chi2Stat(in.A, in.B)), "statistic")
             \cup Chk(out.dof = d, "dof")
             \cup Chk(PValue(out.p, out.stat, d), "p-value")
=============================================================================
