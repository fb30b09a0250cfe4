---------------------------- MODULE SpatialTests ----------------------------
(* Tests of spatial dependence of a Spatial_Markov.                           *)
EXTENDS SpatialMarkov, Homogeneity, Chain, Draws

MatI(A, l) == [i \in 1..A.sh[2] |-> [j \in 1..A.sh[3] |-> At3(A, l, i, j)]]
Slice(A, l) == LET w == A.sh[2] * A.sh[3] IN [sh |-> <<A.sh[2], A.sh[3]>>, d |-> SubSeq(A.d, (l - 1) * w + 1, l * w)]

\* ---- the statistic for given lag classes ----
X2Of(own, lag, m, k) ==
    LET T == TLCEval(CondCounts(own, lag, m, k))
        C == TLCEval(Counts(own, k))
    IN  RSum([l \in 1..m |-> Chi2Stat(T[l], C)])

\* lag classes of a panel, by the observed cutoffs or those of each period
LagClasses(in, out, y) ==
    IF in.discrete
    THEN LET c == TLCEval([s \in 1..Len(y[1]) |-> [u \in 1..Len(y) |->
                      CHOOSE l \in Modes(in.w, Column(y, s), u, 1..out.k, "0") : TRUE]])
         IN  TLCEval([u \in 1..Len(y) |-> [s \in 1..Len(y[1]) |-> c[s][u]]])
    ELSE LET L == LagPanel(in.w, y)
             cuts(s) == IF in.fixed \/ in.lagcut # <<>> THEN out.lag_cutoffs.d ELSE QuantileCuts(Column(L, s), in.m)
             c == TLCEval([s \in 1..Len(y[1]) |-> LET q == TLCEval(cuts(s)) IN [u \in 1..Len(y) |-> ClassOfValue(L[u][s], q) + 1]])
         IN  TLCEval([u \in 1..Len(y) |-> [s \in 1..Len(y[1]) |-> c[s][u]]])

\* statistics of all reassignments of the units' series for the lags
AllX2(in, out) ==
    LET own == ClassTable(out.class_ids)
        ps == SetToSeq(Permutations1(Len(in.y)))
    IN  TLCEval([q \in 1..Len(ps) |-> X2Of(own, LagClasses(in, out, Permuted(in.y, ps[q])), out.m, out.k)])

\* ---- judgements ----
JudgeSteadyOf(P, got) == JudgeSteadyState([P |-> P, fill |-> FALSE], got)
JudgePassageOf(P, got) == JudgeMfpt([P |-> P, fill |-> FALSE], got)
Named(S, prefix) == {prefix \o x : x \in S}
SomeEmpty(out) == \E l \in 1..out.m : EmptyRows(Mat(Slice(out.P, l))) # {}

\* steady state difference test; asked only where the expected values are positive
ShTest(s, S, n, got, k) ==
    LET stat == RSum([j \in 1..k |-> RDiv(RMul(RI(n), RSq(RSub(S.d[j], s.d[j]))), s.d[j])])
    IN  \/ Len(S.sh) # 1 \/ Len(s.sh) # 1 \/ n = 0 \/ \E j \in 1..k : RLt(s.d[j], "1/1000000")
        \/ RClose(got[1], stat, Tol, Tol) /\ got[3] = RI(k - 1) /\ PValue(got[2], got[1], k - 1)

JudgeAttributes(out) ==
    LET k == out.k
        m == out.m
        C == [i \in 1..k |-> [j \in 1..k |-> At2(out.transitions, i, j)]]
        T == TLCEval([l \in 1..m |-> MatI(out.T, l)])
        chi(l) == Chi2Stat(T[l], C)
        d(l) == Chi2DoF(T[l], C)
        Q == TLCEval(Total3(QTable(T)))
        LR == TLCEval(Total3(LTable(T)))
        hd == DoF(T)
    IN  Chk(/\ Len(out.chi2) = m
            /\ \A l \in 1..m : /\ NearStat(out.chi2[l][1], chi(l)) /\ out.chi2[l][3] = RI(d(l))
                               /\ PValue(out.chi2[l][2], out.chi2[l][1], d(l)), "chi2")
        \cup Chk(NearStat(out.x2, RSum([l \in 1..m |-> chi(l)])), "x2")
        \cup Chk(out.x2_dof = k * (k - 1) * (k - 1) /\ PValue(out.x2_pvalue, out.x2, k * (k - 1) * (k - 1)), "x2-pvalue")
        \cup Chk(NearStat(out.Q, Q) /\ NearStat(out.LR, LR) /\ out.dof_hom = hd
                 /\ PValue(out.Q_p_value, out.Q, hd) /\ PValue(out.LR_p_value, out.LR, hd), "homogeneity")
        \cup Named(JudgeSteadyOf(Mat(out.p), out.s), "s-")
        \cup Named(JudgePassageOf(Mat(out.p), out.f), "f-")
        \cup (IF SomeEmpty(out)
              THEN Chk(Raised(out.S) /\ out.S.exc = "ValueError" /\ Raised(out.F) /\ out.F.exc = "ValueError", "empty-rows-rejected")
              ELSE IF Raised(out.S) \/ Raised(out.F) THEN {"raised"}
              ELSE UNION {Named(JudgeSteadyOf(Mat(Slice(out.P, l)), out.S.v[l]), "S-") : l \in 1..m}
                   \cup Chk(Len(out.S.v) = m, "S-number")
                   \cup ChkThen(IsShape(out.F, <<m, k, k>>), "F-shape",
                        UNION {Named(JudgePassageOf(Mat(Slice(out.P, l)), Slice(out.F, l)), "F-") : l \in 1..m})
                   \cup (IF Raised(out.s) \/ EmptyRows(Mat(out.p)) # {} THEN {}
                         ELSE IF Raised(out.shtest)
                         THEN Chk(\/ \E l \in 1..m : Len(out.S.v[l].sh) # 1 \/ SumInt(RowSums(T[l])) = 0  \* nothing is asked of it
                                  \/ \E j \in 1..k : RLt(out.s.d[j], "1/1000000"), "shtest-raised")
                         ELSE Chk(Len(out.shtest.v) = m /\ \A l \in 1..m :
                                 ShTest(out.s, out.S.v[l], SumInt(RowSums(T[l])), out.shtest.v[l], k), "shtest")))

JudgeInference(in, out) ==
    IF Raised(out) THEN {"raised"} ELSE JudgeAttributes(out)

JudgePermuted(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET R == in.permutations
             r == out.realizations.d
         IN  Chk(Len(r) = R /\ out.realizations.sh = <<R, 1>>, "number-of-realizations")
             \cup Chk(Near(out.rpvalue, RN(1 + AtLeast(r, out.observed.x2), R + 1)), "pseudo-p-value")
             \cup Chk(out.plain = out.observed, "observed-unchanged")
             \cup (IF ~in.enum THEN {}
                   ELSE LET all == AllX2(in, out.observed)
                        IN  ChkThen(AllAttainable(all, r), "attainable", Chk(FairDraws(all, r), "equally-likely")))
=============================================================================
