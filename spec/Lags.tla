-------------------------------- MODULE Lags --------------------------------
(* Panels of values over units and periods, spatial weights, spatial lags and *)
(* classification by cutoffs.  A panel y is a sequence of rows (one per unit) *)
(* of rational strings; weights W are, per unit, a sequence of pairs          *)
(* <<neighbour, weight>>.                                                     *)
EXTENDS Base, TLC

\* weighted sum (for row standardised weights: average) of the neighbours
LagOf(W, x, u) == RSum([q \in 1..Len(W[u]) |-> RMul(W[u][q][2], x[W[u][q][1]])])
LagVec(W, x) == TLCEval([u \in 1..Len(W) |-> LagOf(W, x, u)])
Column(y, s) == [u \in 1..Len(y) |-> y[u][s]]
LagPanel(W, y) ==
    LET L == TLCEval([s \in 1..Len(y[1]) |-> LagVec(W, Column(y, s))])
    IN  TLCEval([u \in 1..Len(y) |-> [s \in 1..Len(y[1]) |-> L[s][u]]])

\* ---- classification: class c (from 0) is (cut[c], cut[c + 1]] ----
ClassOfValue(v, cuts) == Cardinality({c \in 1..Len(cuts) : RLt(cuts[c], v)})
\* Declaratively, for increasing cutoffs
InClass(v, cuts, c) ==
    /\ c \in 0..Len(cuts)
    /\ c > 0 => RLt(cuts[c], v)
    /\ c < Len(cuts) => RLeq(v, cuts[c + 1])

SortedR(s) == SortSeq(s, RLt)
Flat(y) == FlattenSeq(y)
\* the i-th k-quantile of a sorted sequence, interpolated linearly
Quantile(s, i, k) ==
    LET n == Len(s)
        f == ((n - 1) * i) \div k
        r == ((n - 1) * i) % k
    IN  IF r = 0 THEN s[f + 1]
        ELSE RAdd(s[f + 1], RMul(RN(r, k), RSub(s[f + 2], s[f + 1])))
\* cutoffs between the k-quantile classes: distinct, below the maximum
QuantileCuts(vals, k) ==
    LET s == TLCEval(SortedR(vals))
        q == TLCEval([i \in 1..(k - 1) |-> Quantile(s, i, k)])
    IN  SelectSeq([i \in 1..(k - 1) |->
                      IF (i > 1 /\ q[i] = q[i - 1]) \/ q[i] = s[Len(s)] THEN "nan" ELSE q[i]],
                  LAMBDA v : v # "nan")

\* ---- categorical lags ----
\* weight of label c among the neighbours of u
Tally(W, x, u, c) == RSum([q \in 1..Len(W[u]) |-> IF x[W[u][q][1]] = c THEN W[u][q][2] ELSE "0"])
MeanWeight(W, u) == RDiv(RSum([q \in 1..Len(W[u]) |-> W[u][q][2]]), RI(Len(W[u])))
Best(tally, labels, eps) ==
    {c \in labels : \A d \in labels : RLeq(tally[d], RAdd(tally[c], eps))}
\* labels that the lag of unit u may have; with eps > 0, values within eps may
\* or may not count as tied
Modes(W, x, u, labels, eps) ==
    LET t == TLCEval([c \in labels |-> Tally(W, x, u, c)])
        own == TLCEval([t EXCEPT ![x[u]] = RAdd(@, MeanWeight(W, u))])
        first == Best(t, labels, "0")
        near == Best(t, labels, eps)
    IN  IF Cardinality(near) = 1 THEN first
        ELSE IF eps = "0" THEN Best(own, labels, "0")
        ELSE near \cup Best(own, labels, eps)
=============================================================================
