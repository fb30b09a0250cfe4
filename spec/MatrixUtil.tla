----------------------------- MODULE MatrixUtil -----------------------------
(* Utilities on matrices, given as recorded arrays of rational strings.       *)
EXTENDS Base, TLC

\* rows that sum to zero get a one on the diagonal
FillMat(M) == [i \in 1..Len(M) |-> IF RZero(RSum(M[i])) THEN [M[i] EXCEPT ![i] = "1"] ELSE M[i]]
\* the entries below the diagonal, row by row
LowerOf(M) == FlattenSeq([i \in 1..Len(M) |-> SubSeq(M[i], 1, i - 1)])
\* one permutation applied to rows and columns; ids count from 1
Reindexed(M, ids) == [a \in 1..Len(ids) |-> [b \in 1..Len(ids) |-> M[ids[a]][ids[b]]]]
FlatM(M) == FlattenSeq(M)
IsPerm(ids, n) == Len(ids) = n /\ Range(ids) = 1..n
Slices(A) == IF Len(A.sh) = 2 THEN <<Mat(A)>>
             ELSE [h \in 1..A.sh[1] |-> [i \in 1..A.sh[2] |-> [j \in 1..A.sh[3] |-> At3(A, h, i, j)]]]

JudgeFill(in, out) ==
    IF Len(in.A.sh) \notin {2, 3} THEN Chk(Raised(out), "rejected")
    ELSE IF Raised(out) THEN {"raised"}
    ELSE Chk(/\ out.result.sh = in.A.sh
             /\ out.result.d = FlattenSeq([h \in 1..Len(Slices(in.A)) |-> FlatM(FillMat(Slices(in.A)[h]))]), "filled")
         \cup Chk(out.argument = in.A, "argument-unchanged")

JudgeLower(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET low == LowerOf(Mat(in.A))
         IN  Chk(out.result.sh = <<Len(low), 1>> /\ out.result.d = low, "lower")
             \cup Chk(out.argument = in.A, "argument-unchanged")

JudgeShuffle(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET n == in.A.sh[1]
         IN  ChkThen(IsPerm(out.ids, n), "ids-permuted",
                 Chk(out.result.sh = in.A.sh /\ out.result.d = FlatM(Reindexed(Mat(in.A), out.ids)), "same-permutation"))
             \cup Chk(out.argument = in.A, "argument-unchanged")

\* many shuffles of k units: all k! orders equally often (within 7 sigma)
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
JudgeDraws(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET v == out.v
             R == Len(v)
             N == Fact(in.k)
             hits(p) == Cardinality({r \in 1..R : v[r] = p})
         IN  ChkThen(R = in.R /\ \A r \in 1..R : IsPerm(v[r], in.k), "ids-permuted",
                 Chk(\A p \in Range(v) : FairHits(hits(p), 1, N, R), "equally-likely")
                 \cup Chk(Cardinality(Range(v)) = N \/ FairHits(0, 1, N, R), "all-orders"))
=============================================================================
