-------------------------------- MODULE Tau --------------------------------
(* Concordance of pairs of observations of two variables, overall and in      *)
(* parts.  x and y are sequences of integers: only the order of the values    *)
(* matters, and the harness presents them through increasing transformations. *)
EXTENDS Base, TLC

Sg(i) == IF i > 0 THEN 1 ELSE IF i < 0 THEN -1 ELSE 0
\* +1 concordant, -1 discordant, 0 tied in x or y
Conc(x, y, i, j) == Sg(x[i] - x[j]) * Sg(y[i] - y[j])
Pairs(n) == {<<i, j>> \in (1..n) \X (1..n) : i < j}

ConcPairs(x, y, S) == Cardinality({p \in S : Conc(x, y, p[1], p[2]) = 1})
DiscPairs(x, y, S) == Cardinality({p \in S : Conc(x, y, p[1], p[2]) = -1})
UntiedX(x, S) == Cardinality({p \in S : x[p[1]] # x[p[2]]})
TiedYOnly(x, y, S) == Cardinality({p \in S : x[p[1]] # x[p[2]] /\ y[p[1]] = y[p[2]]})
\* an "extra x" pair differs in x only
ExtraX(x, y, S) == TiedYOnly(x, y, S)
ExtraY(x, y, S) == TiedYOnly(y, x, S)

\* difference of concordant and discordant pairs over the geometric mean of
\* the numbers of pairs untied in each variable; undefined without such pairs
TauOver(x, y, S) ==
    LET a == UntiedX(x, S)
        b == UntiedX(y, S)
    IN  IF a = 0 \/ b = 0 THEN "nan"
        ELSE RDiv(RI(ConcPairs(x, y, S) - DiscPairs(x, y, S)), RSqrt(RMul(RI(a), RI(b))))
TauB(x, y) == TauOver(x, y, Pairs(Len(x)))
\* two-sided normal approximation
TauP(tau, n) ==
    IF tau = "nan" THEN "nan"
    ELSE LET v == RDiv(RI(4 * n + 10), RMul("9", RMul(RI(n), RI(n - 1))))
         IN  RErfc(RSqrt(RDiv(RSq(tau), RMul("2", v))))

\* ---- neighbour structure nb: sequence of sequences of units ----
Links(nb) == {p \in Pairs(Len(nb)) : \E q \in 1..Len(nb[p[1]]) : nb[p[1]][q] = p[2]}
SpatialTauOf(x, y, nb) == TauOver(x, y, Links(nb))

\* ---- regimes ----
Members(reg, r) == {i \in DOMAIN reg : reg[i] = r}

\* ---- local values as exact ratios ----
SMatrix(x, y) == TLCEval([i \in 1..Len(x) |-> [j \in 1..Len(x) |-> Conc(x, y, i, j)]])
SumIntOver(S, op(_)) == FoldSet(LAMBDA e, acc : acc + op(e), 0, S)
LocalTau(Sm, i) == RN(SumInt(Sm[i]), Len(Sm) - 1)
MeanTau(Sm) == RN(SumInt([i \in 1..Len(Sm) |-> SumInt(Sm[i])]), Len(Sm) * (Len(Sm) - 1))
NeighborTau(Sm, nb, i) == RN(SumInt([q \in 1..Len(nb[i]) |-> Sm[i][nb[i][q]]]), Len(nb[i]))
LinkCount(nb) == SumInt([i \in 1..Len(nb) |-> Len(nb[i])])
NeighborWeight(nb, i) == RN(Len(nb[i]), LinkCount(nb))
GroupTau(Sm, G) ==       \* mean over the ordered pairs of distinct units in G
    LET n == Cardinality(G)
    IN  RN(SumIntOver(G \X G, LAMBDA p : Sm[p[1]][p[2]]), n * (n - 1))
Hood(nb, i) == {i} \cup Range(nb[i])
RegionalTau(Sm, reg, a, b) ==
    LET A == Members(reg, a)
        B == Members(reg, b)
        n == IF a = b THEN Cardinality(A) * (Cardinality(A) - 1) ELSE Cardinality(A) * Cardinality(B)
    IN  RN(SumIntOver(A \X B, LAMBDA p : Sm[p[1]][p[2]]), n)
NumReg(reg) == MaxInt(Range(reg))

\* ---- judgements ----
\* sqrt(2) is rounded to 1.4142136 in the code: relative error 3e-8 of z
PClose(a, b) == RClose(a, b, "1/10000", Ulps)
JudgeTau(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET S == TLCEval(Pairs(Len(in.a)))
             x == in.a
             y == in.b
             t == TauOver(x, y, S)
         IN  Chk(out.concordant = ConcPairs(x, y, S) /\ out.discordant = DiscPairs(x, y, S), "concordance")
             \cup Chk(out.extraX = ExtraX(x, y, S) /\ out.extraY = ExtraY(x, y, S), "extra-pairs")
             \cup Chk(Near(out.tau, t), "tau")
             \cup Chk(PClose(out.tau_p, TauP(t, Len(x))), "p-value")

JudgeSpatialTau(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET L == TLCEval(Links(in.nb))
             x == in.a
             y == in.b
         IN  JudgeTau(in, out)
             \cup Chk(out.pairs_spatial = Cardinality(L), "pairs-spatial")
             \cup Chk(out.concordant_spatial = ConcPairs(x, y, L) /\ out.discordant_spatial = DiscPairs(x, y, L), "spatial-concordance")
             \cup Chk(Near(out.tau_spatial, TauOver(x, y, L)), "tau-spatial")

Signs(v, s, n) == IsShape(s, <<n>>) /\ \A i \in 1..n : s.d[i] = (IF RLt(v.d[i], "0") THEN -1 ELSE 1)
IsS(A, Sm) == LET n == Len(Sm) IN IsShape(A, <<n, n>>) /\ \A i, j \in 1..n : At2(A, i, j) = Sm[i][j]
Vec(A, n, op(_)) == IsShape(A, <<n>>) /\ \A i \in 1..n : Near(A.d[i], op(i))

JudgeLocal(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET n == Len(in.a)
             Sm == SMatrix(in.a, in.b)
         IN  Chk(IsS(out.S, Sm), "S")
             \cup Chk(Near(out.tau, MeanTau(Sm)), "tau")
             \cup ChkThen(Vec(out.tau_local, n, LAMBDA i : LocalTau(Sm, i)), "tau-local",
                     Chk(Near(RDiv(RSum(out.tau_local.d), RI(n)), out.tau), "local-average"))

JudgeNeighbor(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET n == Len(in.a)
             Sm == SMatrix(in.a, in.b)
             overall == RN(SumInt([i \in 1..n |-> SumInt([q \in 1..Len(in.nb[i]) |-> Sm[i][in.nb[i][q]]])]), LinkCount(in.nb))
         IN  ChkThen(Vec(out.tau_ln, n, LAMBDA i : NeighborTau(Sm, in.nb, i)), "tau-neighbor",
                 Chk(Signs(out.tau_ln, out.sign, n), "sign"))
             \cup ChkThen(Vec(out.weights, n, LAMBDA i : NeighborWeight(in.nb, i)), "weights",
                 Chk(Len(out.tau_ln.d) # n \/ Near(RDot(out.weights.d, out.tau_ln.d), overall), "weighted-average"))

JudgeNeighborhood(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET n == Len(in.a)
             Sm == SMatrix(in.a, in.b)
         IN  ChkThen(Vec(out.tau_lnhood, n, LAMBDA i : GroupTau(Sm, Hood(in.nb, i))), "tau-neighborhood",
                 Chk(Signs(out.tau_lnhood, out.sign, n), "sign"))
             \cup Chk(Vec(out.tau_local, n, LAMBDA i : LocalTau(Sm, i)), "tau-local")
             \cup Chk(IsS(out.S, Sm), "S")

JudgeRegional(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET k == NumReg(in.reg)
             Sm == SMatrix(in.a, in.b)
         IN  Chk(IsS(out.S, Sm), "S")
             \cup ChkThen(IsShape(out.tau_reg, <<k, k>>), "tau-regional",
                 Chk(\A a, b \in 1..k : Near(At2(out.tau_reg, a, b), RegionalTau(Sm, in.reg, a, b)), "tau-regional"))
=============================================================================
