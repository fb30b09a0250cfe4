--------------------------- MODULE RankInference ---------------------------
(* Permutation inference of the rank mobility measures.                       *)
EXTENDS Tau, Theta, Draws

\* ---- values of all equally likely reassignments ----
SpatialCases(in) ==
    LET ps == SetToSeq(Permutations1(Len(in.a)))
        L == TLCEval(Links(in.nb))
    IN  TLCEval([q \in 1..Len(ps) |-> <<TauOver(Permuted(in.a, ps[q]), Permuted(in.b, ps[q]), L)>>])
NeighborCases(in, Sm, i) ==
    LET ps == SetToSeq(Keeping(Len(in.a), i))
    IN  TLCEval([q \in 1..Len(ps) |->
            <<RN(SumInt([j \in 1..Len(in.nb[i]) |-> Sm[i][ps[q][in.nb[i][j]]]]), Len(in.nb[i]))>>])
HoodCases(in, Sm, i) ==
    LET ps == SetToSeq(Keeping(Len(in.a), i))
    IN  TLCEval([q \in 1..Len(ps) |-> <<GroupTau(Sm, {ps[q][j] : j \in Hood(in.nb, i)})>>])
RegionalCases(in, Sm) ==
    LET ps == SetToSeq(Permutations1(Len(in.a)))
        k == NumReg(in.reg)
        one(reg) == [c \in 1..(k * k) |-> RegionalTau(Sm, reg, ((c - 1) \div k) + 1, ((c - 1) % k) + 1)]
    IN  TLCEval([q \in 1..Len(ps) |-> one(Permuted(in.reg, ps[q]))])
ThetaCases(in) ==
    LET ps == SetToSeq(Permutations1(Len(in.y)))
    IN  TLCEval([q \in 1..Len(ps) |-> Thetas(in.y, Permuted(in.reg, ps[q]))])

Fair(enum, cases, seen, name) ==
    IF ~enum THEN {}
    ELSE ChkThen(AllAttainableV(cases, seen), "attainable" \o name, Chk(FairDrawsV(cases, seen), "equally-likely" \o name))
Slab(A, r) == LET w == Size(Tail(A.sh)) IN SubSeq(A.d, (r - 1) * w + 1, r * w)
Slabs(A) == [r \in 1..A.sh[1] |-> Slab(A, r)]
Layer(A, c) == LET w == Size(Tail(A.sh)) IN [r \in 1..A.sh[1] |-> A.d[(r - 1) * w + c]]

Same(out) == Chk(out.plain = out.observed, "observed-unchanged")

JudgeSpatialPerms(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE Same(out) \cup
         ChkThen(IsShape(out.sims, <<in.R>>), "shape",
             Chk(Near(out.p, FoldedP(out.sims.d, out.observed.tau_spatial)), "pseudo-p-value")
             \cup Fair(in.enum, IF in.enum THEN SpatialCases(in) ELSE <<>>, AsVecs(out.sims.d), ""))

JudgeLimaPerms(in, out, obs, Cases(_, _, _)) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET n == Len(in.a)
             Sm == SMatrix(in.a, in.b)
         IN  Same(out) \cup
             ChkThen(IsShape(out.sims, <<n, in.R>>) /\ IsShape(out.p, <<n>>), "shape",
                 Chk(\A i \in 1..n : Near(out.p.d[i], SmallerTailP(Row(out.sims, i), obs.d[i])), "pseudo-p-value")
                 \cup UNION {Fair(in.enum, IF in.enum THEN Cases(in, Sm, i) ELSE <<>>, AsVecs(Row(out.sims, i)), "") : i \in 1..n})
JudgeNeighborPerms(in, out) == IF Raised(out) THEN {"raised"} ELSE JudgeLimaPerms(in, out, out.observed.tau_ln, NeighborCases)
JudgeHoodPerms(in, out) == IF Raised(out) THEN {"raised"} ELSE JudgeLimaPerms(in, out, out.observed.tau_lnhood, HoodCases)

JudgeRegionalPerms(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET k == NumReg(in.reg)
             Sm == SMatrix(in.a, in.b)
         IN  Same(out) \cup
             ChkThen(IsShape(out.sims, <<in.R, k, k>>) /\ IsShape(out.p, <<k, k>>), "shape",
                 Chk(\A c \in 1..(k * k) : Near(out.p.d[c], SmallerTailP(Layer(out.sims, c), out.observed.tau_reg.d[c])), "pseudo-p-value")
                 \cup Fair(in.enum, IF in.enum THEN RegionalCases(in, Sm) ELSE <<>>, Slabs(out.sims), ""))

\* no permutations: no inference. Left to itself, theta draws 999, the others none.
DefaultDraws(measure) == IF measure = "theta" THEN 999 ELSE 0
JudgeUnasked(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET want == IF in.default THEN DefaultDraws(in.measure) ELSE 0
         IN  Chk((out.inference # <<>>) = (want > 0), IF want > 0 THEN "inference-missing" ELSE "inference-without-permutations")
             \cup Chk(out.drawn = want, "number-drawn")

JudgeThetaPerms(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET m == Len(in.y[1]) - 1
         IN  Same(out) \cup
             ChkThen(IsShape(out.sims, <<in.R + 1, m>>) /\ IsShape(out.left, <<m>>) /\ IsShape(out.right, <<m>>) /\ IsShape(out.z, <<m>>), "shape",
                 Chk(Slab(out.sims, 1) = out.observed.theta.d, "observed-first")
                 \cup Chk(\A c \in 1..m : LET s == Layer(out.sims, c) IN
                            Near(out.left.d[c], LeftShare(s)) /\ Near(out.right.d[c], RightShare(s)), "pseudo-p-value")
                 \cup Chk(\A c \in 1..m : LET s == Layer(out.sims, c)
                                             d == StdOf(s)
                                         IN  s[1] = "nan" \/ RLt(d, "1/1000000") \/ Near(out.z.d[c], RDiv(RSub(s[1], MeanOf(s)), d)), "z")
                 \cup Fair(in.enum, IF in.enum THEN ThetaCases(in) ELSE <<>>, Tail(Slabs(out.sims)), ""))
=============================================================================
