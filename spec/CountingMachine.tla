------------------------- MODULE CountingMachine -------------------------
(* The estimator as a machine: it visits one move per step, then normalises  *)
(* one row per step.  Model-checked over all tables of N units and P periods *)
(* over K classes; every table is printed as a case for the real code.       *)
EXTENDS Counting, TLC, Json

CONSTANTS K, N, P, Fills        \* classes, units, periods, values of the option
Inputs == [1..N -> [1..P -> 1..K]]
VARIABLES data, fill, pos, cnt, prob, row

vars == <<data, fill, pos, cnt, prob, row>>

Init ==
    /\ data \in Inputs
    /\ fill \in Fills
    /\ pos = <<1, 1>>
    /\ cnt = ZeroCounts(K)
    /\ prob = [i \in 1..K |-> <<>>]
    /\ row = 1

T == Len(data[1])
Counting == pos[1] <= Len(data)

CountMove ==
    /\ Counting
    /\ pos[2] < T
    /\ cnt' = AddMove(cnt, data[pos[1]][pos[2]], data[pos[1]][pos[2] + 1])
    /\ pos' = <<pos[1], pos[2] + 1>>
    /\ UNCHANGED <<data, fill, prob, row>>

NextUnit ==
    /\ Counting
    /\ pos[2] = T
    /\ pos' = <<pos[1] + 1, 1>>
    /\ UNCHANGED <<data, fill, cnt, prob, row>>

Normalise ==
    /\ ~Counting
    /\ row <= K
    /\ prob' = [prob EXCEPT ![row] = [j \in 1..K |-> Prob(cnt, fill, row, j)]]
    /\ row' = row + 1
    /\ UNCHANGED <<data, fill, pos, cnt>>

Next == CountMove \/ NextUnit \/ Normalise
Spec == Init /\ [][Next]_vars

Done == ~Counting /\ row > K

\* ---- design invariants ----
Processed(m) == m[1] < pos[1] \/ (m[1] = pos[1] /\ m[2] < pos[2])
\* each move that was visited is counted once, in its own cell
CountsExact ==
    \A i, j \in 1..K :
        cnt[i][j] = Cardinality({m \in Moves(data) : /\ Processed(m)
                                                     /\ data[m[1]][m[2]] = i
                                                     /\ data[m[1]][m[2] + 1] = j})
TotalMoves ==
    ~Counting => SumInt([i \in 1..K |-> RowTotal(cnt, i)]) = Len(data) * (T - 1)
FoldAgrees == Done => cnt = Counts(data, K) /\ prob = Probs(cnt, fill)
DeclarativeAgrees == Done => \A i, j \in 1..K : cnt[i][j] = CountOf(data, i, j)
RowsStochastic ==
    \A i \in 1..K : (row > i) =>
        LET total == RSum(prob[i]) IN
        /\ RowTotal(cnt, i) > 0 => total = "1"
        /\ RowTotal(cnt, i) = 0 => total = (IF fill THEN "1" ELSE "0")
        /\ \A j \in 1..K : RLeq("0", prob[i][j]) /\ RLeq(prob[i][j], "1")
\* the option changes empty rows only
FillOnlyEmpty ==
    Done => \A i \in 1..K : RowTotal(cnt, i) > 0 => Probs(cnt, TRUE)[i] = Probs(cnt, FALSE)[i]
\* counts never decrease
Monotone == [][\A i, j \in 1..K : cnt'[i][j] >= cnt[i][j]]_vars


Export == Done => PrintT("CASE " \o ToJson([k |-> K, data |-> data, fill |-> fill]))
=============================================================================
