------------------------------- MODULE Theta -------------------------------
(* Regime decomposition of rank changes.  y is a panel of integers (only the  *)
(* order within a period matters), reg the regime number of each unit.        *)
EXTENDS Base, TLC

\* twice the mean rank of unit u in period s: ranks of tied units are shared
Rank2(y, s, u) ==
    2 * Cardinality({v \in 1..Len(y) : y[v][s] < y[u][s]}) + Cardinality({v \in 1..Len(y) : y[v][s] = y[u][s]}) + 1
Ranks2(y) == TLCEval([u \in 1..Len(y) |-> [s \in 1..Len(y[1]) |-> Rank2(y, s, u)]])
Change2(r2, s) == [u \in 1..Len(r2) |-> r2[u][s + 1] - r2[u][s]]
Total2(d) == SumInt([u \in 1..Len(d) |-> Abs(d[u])])
Net2(d, G) == Abs(FoldSet(LAMBDA u, acc : acc + d[u], 0, G))
Groups(reg) == {{u \in 1..Len(reg) : reg[u] = r} : r \in Range(reg)}
\* theta of rank changes d for a partition; undefined when nothing changes
ThetaOf(d, parts) == RN(FoldSet(LAMBDA G, acc : acc + Net2(d, G), 0, parts), Total2(d))
MaxTotal(n) == SumInt([i \in 1..n |-> Abs(2 * i - n - 1)])
Thetas(y, reg) ==
    LET r2 == Ranks2(y)
        g == TLCEval(Groups(reg))
    IN  TLCEval([s \in 1..(Len(y[1]) - 1) |-> ThetaOf(Change2(r2, s), g)])

JudgeTheta(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET n == Len(in.y)
             t == Len(in.y[1])
             r2 == Ranks2(in.y)
             th == Thetas(in.y, in.reg)
         IN  Chk(IsShape(out.ranks, <<n, t>>) /\ \A u \in 1..n, s \in 1..t : At2(out.ranks, u, s) = RN(r2[u][s], 2), "ranks")
             \cup Chk(IsShape(out.changes, <<n, t - 1>>) /\ \A u \in 1..n, s \in 1..(t - 1) : At2(out.changes, u, s) = RN(Change2(r2, s)[u], 2), "changes")
             \cup Chk(IsShape(out.total, <<t - 1>>) /\ \A s \in 1..(t - 1) : Near(out.total.d[s], RN(Total2(Change2(r2, s)), 2)), "total")
             \cup Chk(out.max_total = MaxTotal(n), "max-total")
             \cup Chk(Len(out.theta.d) = t - 1 /\ \A s \in 1..(t - 1) : Near(out.theta.d[s], th[s]), "theta")
             \cup Chk(\A s \in 1..Len(out.theta.d) : out.theta.d[s] = "nan" \/ (RLeq("0", out.theta.d[s]) /\ RLeq(out.theta.d[s], "1")), "range")
             \cup Chk(Range(out.regimes) = Range(in.reg), "regimes")
=============================================================================
