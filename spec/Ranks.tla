------------------------------- MODULE Ranks -------------------------------
(* Chains of ranks.  y is a panel (rows of rational strings).                 *)
EXTENDS Lags, Chain

\* ranks of a cross section, the largest value first; equal values are ranked
\* in the order of the units, or in the opposite order
Before(col, u, v, first) ==
    \/ RLt(col[u], col[v])                              \* v is ranked before u
    \/ REq(col[u], col[v]) /\ (IF first THEN v < u ELSE v > u)
RankOf(col, u, first) == 1 + Cardinality({v \in 1..Len(col) : Before(col, u, v, first)})
RankVec(col, first) == TLCEval([u \in 1..Len(col) |-> RankOf(col, u, first)])
RankTable(y, first) ==
    LET c == TLCEval([s \in 1..Len(y[1]) |-> RankVec(Column(y, s), first)])
    IN  TLCEval([u \in 1..Len(y) |-> [s \in 1..Len(y[1]) |-> c[s][u]]])
\* units by rank position
HolderTable(y, first) ==
    LET R == TLCEval(RankTable(y, first))
        h == TLCEval([s \in 1..Len(y[1]) |-> TLCEval([r \in 1..Len(y) |-> CHOOSE u \in 1..Len(y) : R[u][s] = r])])
    IN  TLCEval([r \in 1..Len(y) |-> [s \in 1..Len(y[1]) |-> h[s][r]]])

ColTotal(cnt, j) == SumInt([i \in DOMAIN cnt |-> cnt[i][j]])
DoublyStochastic(p, n) ==
    \A i \in 1..n : RClose(RSum(Row(p, i)), "1", Tiny, "0") /\ RClose(RSum(Col(p, i)), "1", Tiny, "0")

JudgeRankChain(c, in, out) ==
    LET n == Len(in.y)
        t == Len(in.y[1])
    IN  IF ~IsShape(out.transitions, <<n, n>>) \/ ~IsShape(out.p, <<n, n>>) THEN {"shape"}
        ELSE Chk(\A i, j \in 1..n : At2(out.transitions, i, j) = c[i][j], "counts")
             \cup Chk(\A i \in 1..n : RowTotal(c, i) = t - 1 /\ ColTotal(c, i) = t - 1, "totals")
             \cup Chk(\A i, j \in 1..n : Exact(At2(out.p, i, j), RN(c[i][j], t - 1)), "probabilities")
             \cup Chk(DoublyStochastic(out.p, n), "doubly-stochastic")
             \cup Chk(out.k = n, "number-of-classes")
             \cup (IF n > 150 THEN {}   \* the recurrent classes of larger chains take too long
                   ELSE JudgeSteadyState([P |-> Mat(out.p), fill |-> FALSE], out.steady))
             \cup (IF Raised(out.sojourn) THEN {"raised"} ELSE JudgeSojourn([P |-> Mat(out.p)], out.sojourn))

JudgeFullRank(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET n == Len(in.y)
             t == Len(in.y[1])
         IN  ChkThen(IsShape(out.ranks, <<n, t>>), "ranks-shape",
                 LET is(first) == LET R == RankTable(in.y, first) IN \A u \in 1..n, s \in 1..t : At2(out.ranks, u, s) = R[u][s]
                     first == is(TRUE)
                 IN  ChkThen(first \/ is(FALSE), "ranks",
                         JudgeRankChain(Counts(RankTable(in.y, first), n), in, out)))

JudgeGeoRank(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET n == Len(in.y)
             fails(first) == LET c == TLCEval(Counts(HolderTable(in.y, first), n)) IN JudgeRankChain(c, in, out)
             f == fails(FALSE)
         IN  IF f = {} THEN f ELSE IF fails(TRUE) = {} THEN {} ELSE f
=============================================================================
