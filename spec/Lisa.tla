-------------------------------- MODULE Lisa --------------------------------
(* LISA Markov: quadrants of the Moran scatterplot, moves between them and    *)
(* the diffusion of clusters.                                                 *)
EXTENDS Lags, Counting, Partition, Homogeneity

Mean(x) == RDiv(RSum(x), RI(Len(x)))
Deviations(x) == LET m == TLCEval(Mean(x)) IN TLCEval([u \in 1..Len(x) |-> RSub(x[u], m)])

\* quadrants by (own high, lag high)
Quadrant(own, lag, geoda) ==
    IF own THEN IF lag THEN 1 ELSE 4
    ELSE IF lag THEN (IF geoda THEN 3 ELSE 2) ELSE (IF geoda THEN 2 ELSE 3)
OwnHigh(q) == q \in {1, 4}
LagHigh(q, geoda) == q = 1 \/ q = (IF geoda THEN 3 ELSE 2)

\* signs that a number known to within eps may have
High(v, eps) == (IF RLt(RNeg(eps), v) THEN {TRUE} ELSE {}) \cup (IF RLeq(v, eps) THEN {FALSE} ELSE {})
QuadrantsOf(W, x, u, zeps, leps) ==
    LET z == Deviations(x)
    IN  {<<o, l>> : o \in High(z[u], zeps), l \in High(LagOf(W, z, u), leps)}

MoveType(a, b) == 4 * (a - 1) + b
Significant(s0, s1) == IF s0 THEN (IF s1 THEN 0 ELSE 16) ELSE (IF s1 THEN 32 ELSE 48)

\* ---- expected moves if own values and lags moved independently ----
\* two-state chain of whether values lie below the mean: tables of booleans,
\* TRUE for not below; returns probabilities, state 1 high and 2 low
SideProbs(tab) == TLCEval(Probs(Counts([u \in 1..Len(tab) |-> [s \in 1..Len(tab[1]) |-> IF tab[u][s] THEN 1 ELSE 2]], 2), FALSE))
Side(b) == IF b THEN 1 ELSE 2
Expected(Po, Pl, rows, geoda) ==
    [a \in 1..4 |-> [b \in 1..4 |->
        RMul(RI(rows[a]), RMul(Po[Side(OwnHigh(a))][Side(OwnHigh(b))],
                               Pl[Side(LagHigh(a, geoda))][Side(LagHigh(b, geoda))]))]]
Transposed(y) == [s \in 1..Len(y[1]) |-> [u \in 1..Len(y) |-> y[u][s]]]
NotBelow(y, mean(_)) == [u \in 1..Len(y) |-> [s \in 1..Len(y[1]) |-> RLeq(mean(s), y[u][s])]]
\* deviations from the means of the columns of y, which must not be too close to zero
ExpectedOf(y, lagy, rows, geoda) ==
    LET mu == TLCEval([s \in 1..Len(y[1]) |-> Mean(Column(y, s))])
    IN  TLCEval(Expected(SideProbs(NotBelow(y, LAMBDA s : mu[s])), SideProbs(NotBelow(lagy, LAMBDA s : mu[s])), rows, geoda))
\* no value or lag within eps of its mean, and all means positive
ClearSides(y, lagy, eps) ==
    LET mu == TLCEval([s \in 1..Len(y[1]) |-> Mean(Column(y, s))])
        clear(v, m) == RLt(eps, RAbs(RSub(v, m)))
    IN  \A s \in 1..Len(y[1]) : RPos(mu[s]) /\ \A u \in 1..Len(y) : clear(y[u][s], mu[s]) /\ clear(lagy[u][s], mu[s])

\* chi-squared comparison of counts A with the proportions of the real matrix B
Chi2Real(A, B) ==
    LET bs == TLCEval([i \in 1..Len(B) |-> RSum(B[i])])
        cell(i, j) == LET e == IF RZero(bs[i]) THEN "0" ELSE RDiv(RMul(RI(SumInt(A[i])), B[i][j]), bs[i])
                      IN  IF RZero(e) THEN "0" ELSE RDiv(RSq(RSub(RI(A[i][j]), e)), e)
    IN  RSum([i \in 1..Len(A) |-> RSum([j \in 1..Len(A[1]) |-> cell(i, j)])])

JudgeLisa(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE
    LET n == Len(in.y)
        t == Len(in.y[1])
        scale(s) == RMul(Tol, RAdd(Tiny, SortedR([u \in 1..n |-> RAbs(in.y[u][s])])[n]))
        q(u, s) == At2(out.q, u, s)
    IN  ChkThen(IsShape(out.q, <<n, t>>) /\ \A e \in 1..(n * t) : out.q.d[e] \in 1..4, "quadrant-range",
        LET tab == TLCEval([u \in 1..n |-> [s \in 1..t |-> q(u, s)]])
            C == TLCEval(Counts(tab, 4))
        IN  Chk(\A s \in 1..t :
                  LET x == Column(in.y, s)
                      z == Deviations(x)
                      ze == IF in.zexact THEN "0" ELSE scale(s)
                      le == IF in.lexact THEN "0" ELSE scale(s)
                  IN  \A u \in 1..n : \E o \in High(z[u], ze) : \E l \in High(LagOf(in.w, z, u), le) :
                        q(u, s) = Quadrant(o, l, in.geoda), "quadrants")
            \cup Chk(out.classes = <<1, 2, 3, 4>>, "classes")
            \cup Chk(IsShape(out.transitions, <<4, 4>>) /\ \A i, j \in 1..4 : At2(out.transitions, i, j) = C[i][j], "transitions")
            \cup Chk(IsShape(out.p, <<4, 4>>) /\ \A i, j \in 1..4 : Exact(At2(out.p, i, j), Prob(C, FALSE, i, j)), "probabilities")
            \cup Chk(IsShape(out.moves, <<n, t - 1>>) /\ \A u \in 1..n : \A s \in 1..(t - 1) :
                        At2(out.moves, u, s) = MoveType(q(u, s), q(u, s + 1)), "move-types")
            \cup (IF in.permutations = 0 THEN Chk(~Has(out, "sig"), "significance-without-permutations")
                  ELSE ChkThen(Has(out, "sig") /\ IsShape(out.sig, <<n, t - 1>>) /\ IsShape(out.pvalues, <<n, t>>), "significance-shape",
                       Chk(\A e \in 1..(n * t) : out.pvalues.d[e] = "nan" \/ (RLeq("0", out.pvalues.d[e]) /\ RLeq(out.pvalues.d[e], "1")), "p-values")
                       \cup Chk(\A u \in 1..n : \A s \in 1..(t - 1) :
                            At2(out.sig, u, s) = MoveType(q(u, s), q(u, s + 1)) +
                                Significant(RLeq(At2(out.pvalues, u, s), out.level), RLeq(At2(out.pvalues, u, s + 1), out.level)),
                            "significant-moves")))
            \cup (LET lagy == LagPanel(in.w, in.y)
                      yt == Transposed(in.y)
                      lt == Transposed(lagy)
                      rows == RowSums(C)
                      eps == SortedR([s \in 1..t |-> scale(s)])[t]
                      same(E) == \A i, j \in 1..4 : RClose(At2(out.expected, i, j), E[i][j], Tol, Tol)
                  IN  ChkThen(IsShape(out.expected, <<4, 4>>), "expected-shape",
                      (IF ~ClearSides(in.y, lagy, eps) \/ ~ClearSides(yt, lt, eps) \/ same(ExpectedOf(in.y, lagy, rows, in.geoda)) THEN {}
                       \* the means and moves are taken along the wrong axis
                       ELSE IF same(ExpectedOf(yt, lt, rows, in.geoda)) THEN {"expected-moves-axis"}
                       ELSE {"expected-moves"})
                      \cup (LET B == Mat(out.expected)
                            IN  IF \E i, j \in 1..4 : RZero(B[i][j]) /\ C[i][j] > 0 THEN {}
                                ELSE LET d == (Cardinality({i \in 1..4 : rows[i] > 0}) - 1)
                                              * (Cardinality({i \in 1..4 : RPos(RSum(B[i]))}) - 1)
                                     IN  Chk(/\ RClose(out.chi2[1], Chi2Real(C, B), Tol, Tol)
                                             /\ out.chi2[3] = RI(d)
                                             /\ PValue(out.chi2[2], out.chi2[1], d), "independence-test")))))

-----------------------------------------------------------------------------
(* Clusters and their diffusion.  nb[u]: the set of neighbours of unit u.     *)
ClusterLinks(nb, core, second) ==
    UNION {{{i, j} : j \in nb[i]} : i \in core}
    \cup (IF second THEN UNION {UNION {{{j, h} : h \in nb[j]} : j \in nb[i]} : i \in core} ELSE {})
Clusters(nb, core, second) ==
    LET E == ClusterLinks(nb, core, second) IN Components(UNION E, E)
\* unit u becomes a member of a cluster that continues one of before
SpillsOver(before, after, u) ==
    /\ u \notin UNION before
    /\ \E c \in after : u \in c /\ c \cap UNION before # {}

JudgeSpillover(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE IF in.permutations = 0 THEN Chk(out.nothing, "no-result-without-permutations")
    ELSE
    LET n == Len(in.nb)
        t == out.q.sh[2]
        nb == [u \in 1..n |-> Range(in.nb[u])]
        core(s) == {u \in 1..n : At2(out.q, u, s) = in.quadrant /\ RLeq(At2(out.pvalues, u, s), out.level)}
        cl == TLCEval([s \in 1..t |-> Clusters(nb, core(s), in.second)])
    IN  ChkThen(~out.nothing /\ IsShape(out.components, <<n, t>>) /\ IsShape(out.spill, <<n, t - 1>>), "shape",
        Chk(\A s \in 1..t : \A u \in 1..n : IF u \in UNION cl[s] THEN At2(out.components, u, s) > 0 ELSE At2(out.components, u, s) = 0, "members")
        \cup Chk(\A s \in 1..t : \A u, v \in UNION cl[s] :
                    (At2(out.components, u, s) = At2(out.components, v, s)) <=> (\E c \in cl[s] : {u, v} \subseteq c), "groups")
        \cup Chk(\A s \in 1..(t - 1) : \A u \in 1..n :
                    At2(out.spill, u, s) = IF SpillsOver(cl[s], cl[s + 1], u) THEN 1 ELSE 0, "spillover"))
=============================================================================
