-------------------------- MODULE MobilityMachine --------------------------
(* From the identity, a step moves 1/Q of the probability of one row from one *)
(* cell to another; all matrices with entries in multiples of 1/Q are met.    *)
EXTENDS Mobility, Json
CONSTANTS N, Q
VARIABLES P          \* in units of 1/Q
vars == <<P>>
States1 == 1..N

Init == P = [i \in States1 |-> [j \in States1 |-> IF i = j THEN Q ELSE 0]]
Move(i, a, b) == P' = [P EXCEPT ![i][a] = @ - 1, ![i][b] = @ + 1]
Next == \E i, a, b \in States1 : a # b /\ P[i][a] > 0 /\ Move(i, a, b)
Spec == Init /\ [][Next]_vars

M(X) == [i \in States1 |-> [j \in States1 |-> RN(X[i][j], Q)]]
U == Uniform(N)
IsIdentity == P = [i \in States1 |-> [j \in States1 |-> IF i = j THEN Q ELSE 0]]

Stochastic == \A i \in States1 : RSum(M(P)[i]) = "1"
DeterminantsAgree == Det(M(P)) = Cofactor(M(P))
\* with uniform weights the first Bartholomew index is the trace index
TraceIsUniformB1 == MP(M(P)) = MB1(M(P), U)
TraceIsMeanPrais == MP(M(P)) = RDiv(RSum(Prais(M(P))), RI(N - 1))
ZeroOnlyForIdentity == (MP(M(P)) = "0") = IsIdentity /\ (MB2(M(P), U) = "0") = IsIdentity
DInRange == RLeq("0", MD(M(P))) /\ RLeq(MD(M(P)), "1")
\* one is an eigenvalue, and none is larger
UnitRoot == REq(RSum(CharPoly(M(P))), "0")
NoneOutside == Tried(CharPoly(M(P)), 2^20 + 1, 1, 2^20) = N
\* the second modulus of two and three states in closed form
Second ==
    LET t == RSub(Trace(M(P)), "1")
        d == Det(M(P))
        disc == RSub(RSq(t), RMul("4", d))
    IN  IF N = 2 THEN RAbs(t)
        ELSE IF RLt(disc, "0") THEN RSqrt(d)
        ELSE RMax(RAbs(RDiv(RAdd(t, RSqrt(disc)), "2")), RAbs(RDiv(RSub(t, RSqrt(disc)), "2")))
CirclesAgree == N <= 3 => /\ IsSecondModulus(CharPoly(M(P)), Second, 2^20)
                          /\ ~IsSecondModulus(CharPoly(M(P)), RAdd(Second, "1/1000"), 2^20)
                          /\ RLt("1/1000", Second) => ~IsSecondModulus(CharPoly(M(P)), RSub(Second, "1/1000"), 2^20)
\* moving probability off the diagonal raises the trace index by a fixed
\* amount; moving it away from the diagonal raises the distance index
Monotone == [][\A i, a, b \in States1 :
    (P[i][a] > 0 /\ P'[i][a] = P[i][a] - 1 /\ P'[i][b] = P[i][b] + 1) =>
        /\ RSub(MP(M(P')), MP(M(P))) = RDiv(RI((IF a = i THEN 1 ELSE 0) - (IF b = i THEN 1 ELSE 0)), RI(Q * (N - 1)))
        /\ RSub(MB2(M(P'), U), MB2(M(P), U)) = RDiv(RI(Abs(b - i) - Abs(a - i)), RI(Q * N * (N - 1)))]_vars
Export == PrintT("CASE " \o ToJson([P |-> M(P)]))
=============================================================================
