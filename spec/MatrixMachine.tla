---------------------------- MODULE MatrixMachine ----------------------------
(* Filling goes through the rows one at a time; shuffling exchanges one pair  *)
(* of units at a time (each way of doing so is one behaviour), and the lower  *)
(* part is read off entry by entry.                                           *)
EXTENDS MatrixUtil, Json
CONSTANTS N, Vals, Mode
VARIABLES orig, cur, pos, ids, low
vars == <<orig, cur, pos, ids, low>>
S(M) == [i \in 1..N |-> [j \in 1..N |-> RI(M[i][j])]]
Distinct == [i \in 1..N |-> [j \in 1..N |-> (i - 1) * N + j]]
Init ==
    /\ orig \in (IF Mode = "fill" THEN [1..N -> [1..N -> Vals]] ELSE {Distinct})
    /\ cur = orig /\ pos = 1 /\ ids = [i \in 1..N |-> i] /\ low = <<>>
Fill ==
    /\ Mode = "fill" /\ pos <= N
    /\ cur' = IF SumInt(cur[pos]) = 0 THEN [cur EXCEPT ![pos][pos] = 1] ELSE cur
    /\ low' = low \o SubSeq(orig[pos], 1, pos - 1)
    /\ pos' = pos + 1 /\ UNCHANGED <<orig, ids>>
Swap(f, a, b) == [f EXCEPT ![a] = f[b], ![b] = f[a]]
Shuffle ==
    /\ Mode = "shuffle" /\ pos < N
    /\ \E j \in 1..(N + 1 - pos) :
         LET i == N + 1 - pos
             s(M) == LET R == Swap(M, i, j) IN [a \in 1..N |-> Swap(R[a], i, j)]
         IN  ids' = Swap(ids, i, j) /\ cur' = s(cur)
    /\ pos' = pos + 1 /\ UNCHANGED <<orig, low>>
Next == Fill \/ Shuffle
Spec == Init /\ [][Next]_vars

FillDone == Mode = "fill" /\ pos > N
FillAgrees == FillDone => S(cur) = FillMat(S(orig))
LowAgrees == FillDone => [i \in 1..Len(low) |-> RI(low[i])] = LowerOf(S(orig))
LowLength == FillDone => 2 * Len(low) = N * (N - 1)
\* with non-negative entries no row is empty afterwards; filling twice is filling once
Idempotent == FillDone => FillMat(S(cur)) = S(cur) \/ \E v \in Vals : v < 0
OnlyDiagonal == \A i, j \in 1..N : (Mode = "fill" /\ cur[i][j] # orig[i][j]) => i = j
ShuffleAgrees == Mode = "shuffle" => S(cur) = Reindexed(S(orig), ids)
\* the exchanges made so far leave exactly one history per arrangement: the
\* number of distinct states of level p is N!/(N-p+1)!, as many as histories
PermAlways == IsPerm(ids, N)
Export == ((FillDone) \/ (Mode = "shuffle" /\ pos = N)) => PrintT("CASE " \o ToJson([A |-> orig, ids |-> ids]))
=============================================================================
