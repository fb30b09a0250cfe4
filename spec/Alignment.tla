----------------------------- MODULE Alignment -----------------------------
(* Optimal matching of sequences of classes 1..k (named Alignment because     *)
(* Sequences is a standard module).  An alignment of two sequences pairs up   *)
(* some of their positions in order; paired positions cost the substitution   *)
(* of one element for the other, all others an insertion or deletion.         *)
EXTENDS Base, TLC

\* ---- the definition, for short sequences ----
Alignments(n, m) ==
    {M \in SUBSET ((1..n) \X (1..m)) :
        \A p, q \in M : p # q => (p[1] < q[1] /\ p[2] < q[2]) \/ (q[1] < p[1] /\ q[2] < p[2])}
AlignmentCost(M, a, b, Cost(_, _), ind) ==
    RAdd(RMul(RI(Len(a) + Len(b) - 2 * Cardinality(M)), ind), SumOver(M, LAMBDA p : Cost(a[p[1]], b[p[2]])))
Least(S) == CHOOSE c \in S : \A d \in S : RLeq(c, d)
LeastCost(a, b, Cost(_, _), ind) == Least({AlignmentCost(M, a, b, Cost, ind) : M \in Alignments(Len(a), Len(b))})

\* ---- the same by dynamic programming (SequenceMachine relates the two) ----
Min3(x, y, z) == RMin(x, RMin(y, z))
Indices(n) == [i \in 1..n |-> i]
NextRow(prev, ai, b, Cost(_, _), ind) ==
    FoldLeft(LAMBDA row, j : Append(row, Min3(RAdd(row[j], ind), RAdd(prev[j + 1], ind), RAdd(prev[j], Cost(ai, b[j])))),
             <<RAdd(prev[1], ind)>>, Indices(Len(b)))
OM(a, b, Cost(_, _), ind) ==
    LET first == TLCEval([j \in 1..(Len(b) + 1) |-> RMul(RI(j - 1), ind)])
    IN  Last(FoldLeft(LAMBDA row, i : NextRow(row, a[i], b, Cost, ind), first, Indices(Len(a))))

\* ---- cost schemes ----
SameLength(seqs) == \A i \in 1..Len(seqs) : Len(seqs[i]) = Len(seqs[1])
Classes(seqs) == UNION {Range(seqs[i]) : i \in 1..Len(seqs)}
IntervalCost(i, j) == RI(Abs(i - j))
ArbitraryCost(i, j) == IF i = j THEN "0" ELSE "1/2"
HammingCost(i, j) == IF i = j THEN "0" ELSE "1"
\* the share of the moves out of class i that go to class j
Moves(seqs, i, j) == Cardinality({<<u, s>> \in (1..Len(seqs)) \X (1..(Len(seqs[1]) - 1)) : seqs[u][s] = i /\ seqs[u][s + 1] = j})
Leaves(seqs, i) == Cardinality({<<u, s>> \in (1..Len(seqs)) \X (1..(Len(seqs[1]) - 1)) : seqs[u][s] = i})
Share(seqs, i, j) == IF Leaves(seqs, i) = 0 THEN "0" ELSE RN(Moves(seqs, i, j), Leaves(seqs, i))
MarkovCost(seqs, i, j) ==
    IF i = j THEN "0" ELSE RSub("1", RDiv(RAdd(Share(seqs, i, j), Share(seqs, j, i)), "2"))
\* the number of positions at which two sequences differ
Hamming(a, b) == Cardinality({i \in 1..Len(a) : a[i] # b[i]})
\* a sequence as its first state (a move from 0) and the moves that follow
AsMoves(s) == [i \in 1..Len(s) |-> <<IF i = 1 THEN 0 ELSE s[i - 1], s[i]>>]
Stay(m) == m[1] = m[2]
TranCost(m1, m2) ==
    IF m1 = m2 THEN "0" ELSE IF m1[1] = 0 \/ m2[1] = 0 THEN "1" ELSE IF Stay(m1) = Stay(m2) THEN "0" ELSE "1"
Tran(a, b) == OM(AsMoves(a), AsMoves(b), TranCost, "2")

Table(k, Cost(_, _)) == TLCEval([i \in 1..k |-> [j \in 1..k |-> Cost(i, j)]])
CostsOf(seqs, type) ==
    LET k == MaxInt(Classes(seqs))
    IN  CASE type = "interval" -> Table(k, IntervalCost)
          [] type = "arbitrary" -> Table(k, ArbitraryCost)
          [] type = "markov" -> Table(k, LAMBDA i, j : MarkovCost(seqs, i, j))
IndelOf(seqs, type) ==
    CASE type = "interval" -> RI(MaxInt(Classes(seqs)) - 1)
      [] type = "tran" -> "2"
      [] OTHER -> "1"

\* ---- judging a distance matrix ----
Dist(a, b, in, scheme, sub, ind) ==
    CASE scheme = "costs" -> OM(a, b, LAMBDA i, j : sub[i][j], ind)
      [] scheme = "hamming" -> RI(Hamming(a, b))
      [] scheme = "tran" -> Tran(a, b)
SymmetricCosts(sub) == \A i, j \in 1..Len(sub) : sub[i][j] = sub[j][i]
JudgeDistances(in, A, scheme, sub, ind) ==
    LET n == Len(in.seqs)
        d(i, j) == Dist(in.seqs[i], in.seqs[j], in, scheme, sub, ind)
        oneway == scheme # "costs" \/ SymmetricCosts(sub)
    IN  ChkThen(IsShape(A, <<n, n>>), "shape",
            Chk(\A i \in 1..n : RZero(At2(A, i, i)), "zero-diagonal")
            \cup Chk(\A i, j \in 1..n : At2(A, i, j) = At2(A, j, i), "symmetric")
            \cup Chk(\A i, j \in 1..n : (i < j /\ in.seqs[i] = in.seqs[j]) => RZero(At2(A, i, j)), "equal-sequences")
            \* costs that depend on the direction may be taken either way
            \cup Chk(\A i, j \in 1..n : (i < j /\ in.seqs[i] # in.seqs[j]) =>
                        Near(At2(A, i, j), d(i, j)) \/ (~oneway /\ Near(At2(A, i, j), d(j, i))), "distances"))
JudgeClasses(in, out) ==
    LET k == MaxInt(Classes(in.seqs)) IN Chk(out.classes = Indices(k) /\ out.k = k, "classes")
JudgeCosts(out, sub, ind) ==
    LET k == Len(sub) IN
    Chk(IsShape(out.sub, <<k, k>>) /\ \A i, j \in 1..k : Near(At2(out.sub, i, j), sub[i][j]), "substitution-costs")
    \cup Chk(Near(out.indel, ind), "indel-cost")

\* complete costs, with or without a type
JudgeOM(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE JudgeClasses(in, out) \cup JudgeCosts(out, in.sub, in.indel)
         \cup JudgeDistances(in, out.dis, "costs", in.sub, in.indel)
\* a named type
Rejected(out) == Raised(out) /\ out.exc = "ValueError"
JudgeScheme(in, out) ==
    IF in.type = "hamming" /\ ~SameLength(in.seqs) THEN Chk(Rejected(out), "unequal-lengths-rejected")
    ELSE IF Raised(out)
    \* moves between periods are defined for sequences of one length only
    THEN Chk(in.type \in {"markov", "tran"} /\ ~SameLength(in.seqs), "raised")
    ELSE IF in.type = "markov" /\ ~SameLength(in.seqs) THEN {}
    ELSE JudgeClasses(in, out) \cup
         IF in.type \in {"hamming", "tran"}
         THEN JudgeDistances(in, out.dis, in.type, <<>>, "0")
              \cup Chk(in.type = "tran" => out.indel = "2", "indel-cost")
         ELSE LET sub == CostsOf(in.seqs, in.type)
                  ind == IndelOf(in.seqs, in.type)
              IN  JudgeCosts(out, sub, ind) \cup JudgeDistances(in, out.dis, "costs", sub, ind)
\* neither a known type nor complete costs
JudgeReject(in, out) == Chk(Rejected(out), "incomplete-request-rejected")
=============================================================================
