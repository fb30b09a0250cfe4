---------------------------- MODULE PlotsMachine ----------------------------
(* Units move between significance classes one period after another; the     *)
(* heatmap of any two periods.  Plots are drawn under a style of their own.   *)
EXTENDS Plots
CONSTANTS N, Depth, MaxOpen
VARIABLES start, now, steps, style, open
vars == <<start, now, steps, style, open>>
Ordinary == "user"
Init == /\ start \in [1..N -> 0..4] /\ now = start /\ steps = 0
        /\ style = Ordinary /\ open = <<>>
Move(u, c) == /\ steps < Depth /\ open = <<>>
              /\ now' = [now EXCEPT ![u] = c] /\ steps' = steps + 1 /\ UNCHANGED <<start, style, open>>
\* a plot keeps the style it finds, uses its own, and goes back, done or failed
Begin == Len(open) < MaxOpen /\ open' = Append(open, style) /\ style' = "plot" /\ UNCHANGED <<start, now, steps>>
End == open # <<>> /\ style' = Last(open) /\ open' = Front(open) /\ UNCHANGED <<start, now, steps>>
Next == (\E u \in 1..N, c \in 0..4 : Move(u, c)) \/ Begin \/ End
Spec == Init /\ [][Next]_vars
InSigClass(c, a) == Cardinality({u \in 1..N : c[u] = a})
\* the rows add up to the units of a class at the start, the columns to those at the end
Margins == \A a \in 0..4 :
    /\ SumInt([b \in 1..5 |-> Count(start, now, a, b - 1)]) = InSigClass(start, a)
    /\ SumInt([b \in 1..5 |-> Count(start, now, b - 1, a)]) = InSigClass(now, a)
\* the off-diagonal cells count the units that moved
OffDiagonal == SumInt([q \in 1..25 |-> LET a == (q - 1) \div 5  b == (q - 1) % 5 IN IF a = b THEN 0 ELSE Count(start, now, a, b)])
               = Cardinality({u \in 1..N : start[u] # now[u]})
\* with no steps, all on the diagonal; each step moves at most one unit off it
Reach == OffDiagonal /\ Cardinality({u \in 1..N : start[u] # now[u]}) <= steps
\* a correct set of cells passes the judgement, and one with a wrong cell does not
CellsOf(hide) == [q \in 1..25 |-> LET a == (q - 1) \div 5  b == (q - 1) % 5  h == hide /\ a = b IN
                    [start |-> Classes5[a + 1], end |-> Classes5[b + 1], hidden |-> h,
                     value |-> RI(Count(start, now, a, b)), text |-> IF h THEN "" ELSE RI(Count(start, now, a, b))]]
Swapped == [q \in 1..25 |-> LET c == CellsOf(TRUE)[q] IN [c EXCEPT !.start = c.end, !.end = c.start]]
Symmetric == \A a, b \in 0..4 : Count(start, now, a, b) = Count(start, now, b, a)
JudgedRight == open = <<>> =>
    /\ JudgeCells(CellsOf(TRUE), Classes5, start, now, TRUE, TRUE) = {}
    /\ JudgeCells(CellsOf(FALSE), Classes5, start, now, FALSE, TRUE) = {}
    /\ (JudgeCells(Swapped, Classes5, start, now, TRUE, TRUE) = {}) <=> Symmetric
StyleBack == open = <<>> => style = Ordinary
=============================================================================
