------------------------------- MODULE Chain -------------------------------
(* Structure and long run behaviour of a finite Markov chain.  A chain is a   *)
(* matrix P of rational strings, P[i][j] the probability of going from i to j.*)
EXTENDS Base, Counting

States(P) == 1..Len(P)
\* rows of zeros become absorbing states
FilledRow(P, i) == IF \A j \in States(P) : RZero(P[i][j])
                   THEN [j \in States(P) |-> IF i = j THEN "1" ELSE "0"] ELSE P[i]
Filled(P) == [i \in States(P) |-> FilledRow(P, i)]
EmptyRows(P) == {i \in States(P) : \A j \in States(P) : RZero(P[i][j])}

\* ---- structure: only which transitions are possible matters ----
Succ(P) == [i \in States(P) |-> {j \in States(P) : ~RZero(P[i][j])}]

RECURSIVE Closure(_, _)
Closure(succ, seen) ==
    LET new == seen \cup UNION {succ[i] : i \in seen}
    IN  IF new = seen THEN seen ELSE Closure(succ, new)
\* the states reachable from i in zero or more steps
ReachFrom(succ, i) == Closure(succ, {i})
Reach(succ) == [i \in DOMAIN succ |-> ReachFrom(succ, i)]

\* Declaratively, j is reachable from i if a path leads there.
Path(succ, s) == \A t \in 1..(Len(s) - 1) : s[t + 1] \in succ[s[t]]
ReachableDecl(succ, i, j) ==
    \E n \in 1..Cardinality(DOMAIN succ) : \E s \in [1..n -> DOMAIN succ] :
        s[1] = i /\ s[n] = j /\ Path(succ, s)

ClassOf(reach, i) == {j \in DOMAIN reach : j \in reach[i] /\ i \in reach[j]}
Communicating(reach) == {ClassOf(reach, i) : i \in DOMAIN reach}
IsClosed(reach, C) == \A i \in C : reach[i] \subseteq C
Recurrent(reach) == {C \in Communicating(reach) : IsClosed(reach, C)}
Transient(reach) == Communicating(reach) \ Recurrent(reach)
Absorbing(succ) == {i \in DOMAIN succ : succ[i] = {i}}

\* ---- sojourn times ----
Sojourn(p) == IF REq(p, "1") THEN "inf" ELSE RDiv("1", RSub("1", p))

\* ---- steady states: one probability vector per recurrent class ----
VecMat(v, P) == [j \in States(P) |-> RDot(v, [i \in States(P) |-> P[i][j]])]
IsProbability(v) == (\A j \in DOMAIN v : RLeq("0", v[j])) /\ RClose(RSum(v), "1", Tol, "0")
IsStationary(v, P) == LET u == VecMat(v, P) IN \A j \in States(P) : RClose(u[j], v[j], "0", "1/10000000000")
\* as much flows into a state as out of it, however little that is
FlowIn(v, P, j) == RSum([i \in States(P) |-> IF i = j THEN "0" ELSE RMul(v[i], P[i][j])])
FlowOut(v, P, j) == RMul(v[j], RSum([i \in States(P) |-> IF i = j THEN "0" ELSE P[j][i]]))
IsBalanced(v, P) == \A j \in States(P) : RClose(FlowIn(v, P, j), FlowOut(v, P, j), "1/1000000", "1/1000000000000000")
SupportedOn(v, C) == \A j \in DOMAIN v : IF j \in C THEN RPos(v[j]) ELSE RClose(v[j], "0", "0", Tiny)

\* ---- first passage: from i, is j reached with certainty? ----
\* states visited from the set S without passing through j
RECURSIVE Avoiding(_, _, _)
Avoiding(succ, j, seen) ==
    LET new == seen \cup (UNION {succ[i] : i \in seen} \ {j})
    IN  IF new = seen THEN seen ELSE Avoiding(succ, j, new)
\* in one or more steps
Sure(succ, reach, i, j) ==
    \A s \in Avoiding(succ, j, succ[i] \ {j}) : j \in reach[s]

\* expected steps from i to j: one, plus those from the successors other than j
FirstStep(P, m, i, j) ==
    RAdd("1", SumOver({s \in States(P) : s # j /\ ~RZero(P[i][s])}, LAMBDA s : RMul(P[i][s], m[s][j])))
\* expected squared number of steps
FirstStepSq(P, m, w, i, j) ==
    RAdd("1", SumOver({s \in States(P) : s # j /\ ~RZero(P[i][s])},
                      LAMBDA s : RMul(P[i][s], RAdd(RMul("2", m[s][j]), w[s][j]))))

\* ---- exact solution of linear equations (for the design model) ----
RECURSIVE Gauss(_, _, _)
\* A: rows of an augmented matrix; solves by full elimination
Gauss(A, n, c) ==
    IF c > n THEN [i \in 1..n |-> A[i][n + 1]]
    ELSE LET p == CHOOSE r \in c..n : ~RZero(A[r][c])
             B == [A EXCEPT ![c] = A[p], ![p] = A[c]]
             pr == [q \in 1..(n + 1) |-> RDiv(B[c][q], B[c][c])]
             E == [r \in 1..n |-> IF r = c THEN pr
                                  ELSE [q \in 1..(n + 1) |-> RSub(B[r][q], RMul(B[r][c], pr[q]))]]
         IN  Gauss(E, n, c + 1)

\* expected steps to j from the states that surely reach it
HitTimes(P, succ, reach, j) ==
    LET S == SetToSeq({i \in States(P) : i # j /\ Sure(succ, reach, i, j)})
        n == Len(S)
        A == [a \in 1..n |-> [b \in 1..(n + 1) |->
                 IF b = n + 1 THEN "1"
                 ELSE RSub(IF a = b THEN "1" ELSE "0", P[S[a]][S[b]])]]
        x == Gauss(A, n, 1)
        other == [i \in States(P) |-> IF \E a \in 1..n : S[a] = i THEN x[CHOOSE a \in 1..n : S[a] = i] ELSE "inf"]
    IN  [other EXCEPT ![j] = IF Sure(succ, reach, j, j)
                             THEN RAdd("1", SumOver({s \in States(P) : s # j /\ s \in succ[j]},
                                                    LAMBDA s : RMul(P[j][s], other[s])))
                             ELSE "inf"]

-----------------------------------------------------------------------------
(* Judgements                                                                *)
Sets(ls) == {Range(ls[i]) : i \in 1..Len(ls)}
NoRepeats(ls) == \A i \in 1..Len(ls) : Len(ls[i]) = Cardinality(Range(ls[i]))
SameSets(ls, n, S) == Len(ls) = Cardinality(S) /\ n = Len(ls) /\ Sets(ls) = S /\ NoRepeats(ls)

JudgeStructure(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET c == Counts(in.data, in.k)
             P == Probs(c, TRUE)
             succ == Succ(P)
             reach == Reach(succ)
         IN  Chk(SameSets(out.cc, out.ncc, Communicating(reach)), "communicating-classes")
             \cup Chk(SameSets(out.rc, out.nrc, Recurrent(reach)), "recurrent-classes")
             \cup Chk(SameSets(out.tc, out.ntc, Transient(reach)), "transient-classes")
             \cup Chk(/\ out.nas = Len(out.as) /\ Range(out.as) = Absorbing(succ)
                      /\ Len(out.as) = Cardinality(Absorbing(succ)), "absorbing-states")
             \cup Chk(/\ IsShape(out.sojourn, <<in.k>>)
                      /\ \A i \in 1..in.k : NearRel(At1(out.sojourn, i), Sojourn(P[i][i])), "sojourn-times")

JudgeSojourn(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET P == Filled(in.P)
         IN  Chk(/\ IsShape(out, <<Len(P)>>)
                 /\ \A i \in States(P) : NearRel(At1(out, i), Sojourn(P[i][i])), "sojourn-times")

\* rows of zeros are an error unless they are to be filled
Rejects(in, out) == EmptyRows(in.P) # {} /\ ~in.fill

JudgeSteady(P, out) ==
    LET k == Len(P)
        succ == Succ(P)
        R == Recurrent(Reach(succ))
        m == Cardinality(R)
    IN  ChkThen(IsShape(out, IF m = 1 THEN <<k>> ELSE <<m, k>>), "steady-shape",
            LET V == IF m = 1 THEN <<out.d>> ELSE Mat(out)
            IN  Chk(\A r \in 1..m : IsProbability(V[r]), "steady-probability")
                \cup Chk(\A r \in 1..m : IsStationary(V[r], P), "steady-stationary")
                \cup Chk(k > 40 \/ \A r \in 1..m : IsBalanced(V[r], P), "steady-balance")
                \cup Chk(\A C \in R : \E r \in 1..m : SupportedOn(V[r], C), "steady-support"))

JudgeSteadyState(in, out) ==
    IF Rejects(in, out) THEN Chk(Raised(out) /\ out.exc = "ValueError", "empty-rows-rejected")
    ELSE IF Raised(out) THEN {"raised"}
    ELSE JudgeSteady(Filled(in.P), out)

JudgeMarkovSteady(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE JudgeSteady(Probs(Counts(in.data, in.k), TRUE), out)

CloseRel == "1/10000000"
JudgePassage(P, out) ==
    LET k == Len(P)
        succ == Succ(P)
        reach == Reach(succ)
    IN  ChkThen(IsShape(out, <<k, k>>), "passage-shape",
            LET m == Mat(out)
            IN  ChkThen(\A i, j \in 1..k : RIsFin(m[i][j]) = Sure(succ, reach, i, j) /\ m[i][j] \notin {"nan", "-inf"},
                        "passage-infinite",
                    Chk(\A i, j \in 1..k : RIsFin(m[i][j]) =>
                            RClose(m[i][j], FirstStep(P, m, i, j), CloseRel, "0"), "passage-first-step")))

JudgeMfpt(in, out) ==
    IF Rejects(in, out) THEN Chk(Raised(out) /\ out.exc = "ValueError", "empty-rows-rejected")
    ELSE IF Raised(out) THEN {"raised"}
    ELSE JudgePassage(Filled(in.P), out)

JudgeMarkovMfpt(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE JudgePassage(Probs(Counts(in.data, in.k), TRUE), out)

\* variance of first passage times of an ergodic chain, with its means
JudgeVar(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET P == in.P
             k == Len(P)
         IN  ChkThen(IsShape(out.mean, <<k, k>>) /\ IsShape(out.var, <<k, k>>), "variance-shape",
             ChkThen(\A i, j \in 1..k : RIsFin(At2(out.mean, i, j)) /\ RIsFin(At2(out.var, i, j)), "variance-finite",
                 LET m == Mat(out.mean)
                     w == TLCEval([i \in 1..k |-> TLCEval([j \in 1..k |-> RAdd(At2(out.var, i, j), RSq(m[i][j]))])])
                     \* the rounding of the greatest second moment
                     top == FoldLeft(RMax, "1", [q \in 1..(k * k) |-> w[((q - 1) \div k) + 1][((q - 1) % k) + 1]])
                 IN  Chk(\A i, j \in 1..k : RClose(w[i][j], FirstStepSq(P, m, w, i, j), CloseRel, RMul("1/100000000000000", top)),
                         "variance-second-moment")))
=============================================================================
