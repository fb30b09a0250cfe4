--------------------------- MODULE SpatialMarkov ---------------------------
(* Markov chains conditional on the class of the spatial lag.                 *)
EXTENDS Lags, Counting

\* Entry (l, i, j): moves from i to j by units whose lag class is l at the start.
CondCount(own, lag, l, i, j) ==
    Cardinality({m \in Moves(own) :
        lag[m[1]][m[2]] = l /\ own[m[1]][m[2]] = i /\ own[m[1]][m[2] + 1] = j})
ZeroCond(m, k) == TLCEval([l \in 1..m |-> ZeroCounts(k)])
AddCond(T, l, i, j) == [T EXCEPT ![l][i][j] = @ + 1]
\* the same, accumulated move by move
CondCounts(own, lag, m, k) ==
    LET t == Len(own[1])
        steps == [q \in 1..(Len(own) * (t - 1)) |-> <<((q - 1) \div (t - 1)) + 1, ((q - 1) % (t - 1)) + 1>>]
    IN  FoldLeft(LAMBDA T, s : AddCond(T, lag[s[1]][s[2]], own[s[1]][s[2]], own[s[1]][s[2] + 1]),
                 ZeroCond(m, k), steps)

-----------------------------------------------------------------------------
\* A reported table of classes 0..m-1 as a panel of classes 1..m
ClassTable(A) == TLCEval([u \in 1..A.sh[1] |-> [s \in 1..A.sh[2] |-> At2(A, u, s) + 1]])
IsClassTable(A, n, t, k) == IsShape(A, <<n, t>>) /\ \A q \in 1..Len(A.d) : A.d[q] \in 0..(k - 1)

\* reported cutoffs agree with the quantiles of the values
CutsAgree(cuts, vals, k) ==
    LET s == TLCEval(SortedR(vals))
        spread == RSub(s[Len(s)], s[1])
        q == TLCEval([i \in 1..(k - 1) |-> Quantile(s, i, k)])
        close(a, b) == RClose(a, b, Tol, RMul(Tol, spread))
    IN  /\ \A c \in 1..Len(cuts) : \E i \in 1..(k - 1) : close(cuts[c], q[i])
        /\ \A i \in 1..(k - 1) : close(q[i], s[Len(s)]) \/ \E c \in 1..Len(cuts) : close(cuts[c], q[i])
        /\ \A c \in 1..(Len(cuts) - 1) : RLt(cuts[c], cuts[c + 1])

\* classes of all values, judged with cutoffs known to within eps
ClassesAgree(A, y, cuts, eps) ==
    \A u \in 1..Len(y) : \A s \in 1..Len(y[1]) :
        /\ At2(A, u, s) >= ClassOfValue(RSub(y[u][s], eps), cuts)
        /\ At2(A, u, s) <= ClassOfValue(RAdd(y[u][s], eps), cuts)

Spread(y) == LET s == SortedR(Flat(y)) IN RSub(s[Len(s)], s[1])
Scale(y) == LET s == SortedR(Flat(y)) IN RMax(RAbs(s[Len(s)]), RAbs(s[1]))

\* classes of the values x of period s, by quantiles known to within eps (such
\* close ones may have been merged or not)
PeriodAgrees(A, x, s, k, eps) ==
    LET srt == TLCEval(SortedR(x))
        q == TLCEval([i \in 1..(k - 1) |-> Quantile(srt, i, k)])
        new(i) == (i = 1 \/ RLt(RAdd(q[i - 1], eps), q[i])) /\ RLt(RAdd(q[i], eps), srt[Len(srt)])
    IN  \A u \in 1..Len(x) :
          /\ At2(A, u, s) >= Cardinality({i \in 1..(k - 1) : RLt(RAdd(q[i], eps), x[u]) /\ new(i)})
          /\ At2(A, u, s) <= IF eps = "0" THEN ClassOfValue(x[u], QuantileCuts(x, k))
                             ELSE ClassOfValue(RAdd(x[u], eps), q)

\* One of the two classifications: y values, k classes asked for, cut the
\* cutoffs asked for (if any), got the classes and gotcut the cutoffs reported
\* (absent if there are none), gotk the number of classes reported.
JudgeClassification(in, what, y, k, cut, got, gotk, gotcut, exact) ==
    LET eps == IF exact THEN "0" ELSE TLCEval(RMul(Tol, Scale(y)))
        n == Len(y)
        t == Len(y[1])
    IN  IF cut # <<>>
        THEN Chk(gotk = Len(cut) + 1 /\ gotcut.d = cut, what \o "-cutoffs")
             \cup Chk(ClassesAgree(got, y, cut, eps), what \o "-classes")
        ELSE IF in.fixed
        THEN ChkThen(gotk = Len(gotcut.d) + 1 /\ CutsAgree(gotcut.d, Flat(y), k), what \o "-cutoffs",
                     Chk(ClassesAgree(got, y, gotcut.d, eps), what \o "-classes"))
        ELSE Chk(gotk = k, what \o "-number")
             \cup Chk(\A s \in 1..t : PeriodAgrees(got, Column(y, s), s, k, eps), what \o "-classes")

\* the conditional chains of reported classes
JudgeConditional(in, out) ==
    LET k == out.k
        m == out.m
        own == ClassTable(out.class_ids)
        lag == ClassTable(out.lclass_ids)
        T == TLCEval(CondCounts(own, lag, m, k))
        C == TLCEval(Counts(own, k))
    IN  ChkThen(/\ IsShape(out.T, <<m, k, k>>) /\ IsShape(out.P, <<m, k, k>>)
                /\ IsShape(out.transitions, <<k, k>>) /\ IsShape(out.p, <<k, k>>), "shape",
            Chk(\A l \in 1..m, i, j \in 1..k : At3(out.T, l, i, j) = T[l][i][j], "conditional-counts")
            \cup Chk(\A l \in 1..m, i, j \in 1..k : Exact(At3(out.P, l, i, j), Prob(T[l], in.fill, i, j)), "conditional-probabilities")
            \cup Chk(\A i, j \in 1..k : At2(out.transitions, i, j) = C[i][j], "unconditional-counts")
            \cup Chk(\A i, j \in 1..k : Exact(At2(out.p, i, j), Prob(C, in.fill, i, j)), "unconditional-probabilities")
            \cup Chk(\A i, j \in 1..k : SumInt([l \in 1..m |-> At3(out.T, l, i, j)]) = At2(out.transitions, i, j), "adds-up"))

JudgeSpatial(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET n == Len(in.y)
             t == Len(in.y[1])
         IN  ChkThen(IsClassTable(out.class_ids, n, t, out.k) /\ IsClassTable(out.lclass_ids, n, t, out.m), "class-range",
             JudgeClassification(in, "own", in.y, in.k, in.cut, out.class_ids, out.k, out.cutoffs, in.exact)
             \cup JudgeClassification(in, "lag", LagPanel(in.w, in.y), in.m, in.lagcut, out.lclass_ids, out.m, out.lag_cutoffs, in.lagexact)
             \cup Chk(out.classes = [i \in 1..out.k |-> i - 1] /\ out.lag_classes = [l \in 1..out.m |-> l - 1], "class-names")
             \cup JudgeConditional(in, out))

JudgeDiscrete(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET n == Len(in.y)
             t == Len(in.y[1])
             eps == IF in.exact THEN "0" ELSE Tol
         IN  ChkThen(IsClassTable(out.class_ids, n, t, in.k) /\ IsClassTable(out.lclass_ids, n, t, in.k)
                     /\ out.k = in.k /\ out.m = in.k, "class-range",
             Chk(\A u \in 1..n, s \in 1..t : At2(out.class_ids, u, s) + 1 = in.y[u][s], "own-classes")
             \cup Chk(\A s \in 1..t : LET x == Column(in.y, s) IN \A u \in 1..n :
                         At2(out.lclass_ids, u, s) + 1 \in Modes(in.w, x, u, 1..in.k, eps), "lag-classes")
             \cup Chk(out.classes = [i \in 1..in.k |-> i], "class-names")
             \cup JudgeConditional(in, out))

\* Ties: labels counted over many constructions of one object.  hits[u][c] of
\* out.n constructions gave unit u the lag label c in the first period.
JudgeTies(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET x == Column(in.y, 1)
         IN  Chk(\A u \in 1..Len(in.y) :
                    LET M == Modes(in.w, x, u, 1..in.k, "0")
                        g == Cardinality(M)
                    IN  \A c \in 1..in.k :
                          IF c \notin M THEN out.hits[u][c] = 0
                          ELSE \* within 7 standard deviations of a fair share
                               LET d == g * out.hits[u][c] - out.n
                               IN  d * d <= 49 * out.n * (g - 1), "ties-at-random")
=============================================================================
