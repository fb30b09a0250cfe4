---------------------------- MODULE ChainMachine ----------------------------
(* Design model of Chain over all chains with K states whose rows of counts  *)
(* are taken from Rows.  The machine explores the states reachable from every *)
(* state with a worklist, then removes states one by one from the chain       *)
(* (censoring), which yields the stationary distribution of an irreducible    *)
(* chain, and compares both with the declarative definitions.                 *)
EXTENDS Chain, TLC, Json
CONSTANTS K, Rows

VARIABLES cnt, root, work, seen, reached, A, n

vars == <<cnt, root, work, seen, reached, A, n>>
P == Probs(cnt, TRUE)
succ == Succ(P)
Irreducible == Cardinality(Communicating(Reach(succ))) = 1

Init ==
    /\ cnt \in [1..K -> Rows]
    /\ root = 1 /\ work = {1} /\ seen = {1}
    /\ reached = [i \in 1..K |-> {}]
    /\ A = <<>> /\ n = 0

Expand ==
    /\ root <= K /\ work # {}
    /\ LET i == CHOOSE i \in work : \A j \in work : i <= j
       IN  /\ seen' = seen \cup succ[i]
           /\ work' = (work \ {i}) \cup (succ[i] \ seen)
    /\ UNCHANGED <<cnt, root, reached, A, n>>
NextRoot ==
    /\ root <= K /\ work = {}
    /\ reached' = [reached EXCEPT ![root] = seen]
    /\ root' = root + 1
    /\ work' = IF root < K THEN {root + 1} ELSE {}
    /\ seen' = IF root < K THEN {root + 1} ELSE {}
    /\ UNCHANGED <<cnt, A, n>>
StartCensor ==
    /\ root > K /\ n = 0 /\ Irreducible
    /\ A' = P /\ n' = K
    /\ UNCHANGED <<cnt, root, work, seen, reached>>
\* remove state n: its visits become direct moves between the others
Censor ==
    /\ n > 1
    /\ LET out == RSum([j \in 1..(n - 1) |-> A[n][j]])
       IN  A' = [i \in 1..K |-> [j \in 1..K |->
                   IF i < n /\ j < n THEN RAdd(A[i][j], RDiv(RMul(A[i][n], A[n][j]), out))
                   ELSE IF j = n /\ i < n THEN RDiv(A[i][n], out)
                   ELSE A[i][j]]]
    /\ n' = n - 1
    /\ UNCHANGED <<cnt, root, work, seen, reached>>
Next == Expand \/ NextRoot \/ StartCensor \/ Censor
Spec == Init /\ [][Next]_vars

Explored == root > K
Finished == Explored /\ (n = 1 \/ ~Irreducible)

RECURSIVE Back(_, _)
Back(v, i) == IF i > K THEN v
              ELSE Back(Append(v, RDot(v, [j \in 1..(i - 1) |-> A[j][i]])), i + 1)
Pi == LET v == Back(<<"1">>, 2) IN [i \in 1..K |-> RDiv(v[i], RSum(v))]

\* ---- invariants ----
SeenReachable == \A j \in seen : root <= K => j \in ReachFrom(succ, root)
ReachAgrees == Explored => reached = Reach(succ)
ReachDeclarative == Explored /\ n = 0 => \A i, j \in 1..K : j \in reached[i] <=> ReachableDecl(succ, i, j)
ClassesPartition ==
    Explored /\ n = 0 =>
        LET r == Reach(succ)
            C == Communicating(r)
        IN  /\ UNION C = 1..K
            /\ \A c, d \in C : c = d \/ c \cap d = {}
            /\ Recurrent(r) # {}
            /\ Recurrent(r) \cup Transient(r) = C
            /\ {i \in 1..K : {i} \in Recurrent(r)} = Absorbing(succ)
CensoredStochastic ==
    n > 0 => \A i \in 1..n : RSum([j \in 1..n |-> A[i][j]]) = "1"
Stationary == n = 1 => /\ VecMat(Pi, P) = Pi
                       /\ JudgeSteady(P, [sh |-> <<K>>, d |-> Pi]) = {}
\* mean recurrence time = 1 / stationary probability (Kac)
Kac == n = 1 => LET r == Reach(succ) IN \A j \in 1..K : HitTimes(P, succ, r, j)[j] = RDiv("1", Pi[j])
\* the equations used to judge first passage times accept the exact solution
PassageAccepted ==
    Finished =>
        LET r == Reach(succ)
            h == [j \in 1..K |-> HitTimes(P, succ, r, j)]
            M == [sh |-> <<K, K>>, d |-> [x \in 1..(K * K) |-> h[((x - 1) % K) + 1][((x - 1) \div K) + 1]]]
        IN  JudgePassage(P, M) = {}
Export == Finished => PrintT("CASE " \o ToJson([k |-> K, cnt |-> cnt]))
Rows2 == {<<a, b>> : a, b \in 0..3}
Rows3 == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>>, <<1, 2, 0>>, <<0, 1, 1>>, <<3, 0, 1>>, <<1, 1, 2>>}
Rows4 == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<0, 2, 0, 0>>, <<0, 0, 3, 0>>, <<0, 0, 0, 1>>, <<1, 0, 0, 2>>,
          <<0, 1, 1, 0>>, <<2, 1, 1, 3>>}
=============================================================================
