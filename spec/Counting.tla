------------------------------ MODULE Counting ------------------------------
(* Estimation of a Markov chain from classes observed over units and periods.*)
(* data[u][s] is the class (1..k) of unit u in period s.                     *)
EXTENDS Base

Units(data) == 1..Len(data)
Moves(data) == {<<u, s>> \in Units(data) \X (1..(Len(data[1]) - 1)) : TRUE}

\* The property, declaratively: the number of moves from i to j.
CountOf(data, i, j) ==
    Cardinality({m \in Moves(data) : data[m[1]][m[2]] = i /\ data[m[1]][m[2] + 1] = j})

\* The same table, accumulated move by move (what the state machine below does).
ZeroCounts(k) == TLCEval([i \in 1..k |-> TLCEval([j \in 1..k |-> 0])])
AddMove(cnt, i, j) == [cnt EXCEPT ![i][j] = @ + 1]
Counts(data, k) ==
    FoldLeft(LAMBDA cnt, row :
                 FoldLeft(LAMBDA c, s : AddMove(c, row[s], row[s + 1]), cnt,
                          [s \in 1..(Len(row) - 1) |-> s]),
             ZeroCounts(k), data)

RowTotal(cnt, i) == SumInt(cnt[i])

\* Transition probabilities: proportions of the row; empty rows stay empty, or
\* get a one on the diagonal.
Prob(cnt, fill, i, j) ==
    IF RowTotal(cnt, i) > 0 THEN RN(cnt[i][j], RowTotal(cnt, i))
    ELSE IF fill /\ i = j THEN "1" ELSE "0"
Probs(cnt, fill) == [i \in DOMAIN cnt |-> [j \in DOMAIN cnt |-> Prob(cnt, fill, i, j)]]

-----------------------------------------------------------------------------
(* Judging an observation of the real estimator.                             *)
JudgeCounts(in, out) ==
    LET k == in.k
        c == TLCEval(Counts(in.data, k))
    IN  IF ~IsShape(out.transitions, <<k, k>>) \/ ~IsShape(out.p, <<k, k>>)
        THEN {"shape"}
        ELSE Chk(\A i, j \in 1..k : At2(out.transitions, i, j) = c[i][j], "counts")
             \cup Chk(\A i, j \in 1..k : Exact(At2(out.p, i, j), Prob(c, in.fill, i, j)), "probabilities")
             \cup Chk(\A i \in 1..k : LET s == RSum(Row(out.p, i)) IN
                          IF RowTotal(c, i) > 0 \/ in.fill THEN RClose(s, "1", Tiny, "0") ELSE s = "0", "row-sums")

JudgeMarkov(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE Chk(out.k = in.k, "number-of-classes")
         \cup Chk(out.classes = [i \in 1..in.k |-> i], "class-order")
         \cup JudgeCounts(in, out)

\* A label that is none of the classes the caller lists is not taken for one.
JudgeUnlisted(in, out) == Chk(Raised(out), "unlisted-label")
=============================================================================
