------------------------------ MODULE Mobility ------------------------------
(* Mobility indices of a transition matrix P (rows of rational strings).      *)
EXTENDS Base, TLC

K(P) == Len(P)
Trace(P) == RSum([i \in 1..K(P) |-> P[i][i]])
Uniform(k) == [i \in 1..k |-> RN(1, k)]
Identity(k) == [i \in 1..k |-> [j \in 1..k |-> IF i = j THEN "1" ELSE "0"]]
MatMul(A, B) == LET k == Len(A)
                    T == TLCEval([j \in 1..k |-> [i \in 1..k |-> B[i][j]]])
                IN  TLCEval([i \in 1..k |-> [j \in 1..k |-> RDot(A[i], T[j])]])

\* ---- characteristic polynomial: coefficients c[1] + c[2] z + .. + c[k+1] z^k
\* (Faddeev and LeVerrier) ----
LevStep(P, acc, n) ==      \* acc.c: coefficients from z^k downwards
    LET PM == TLCEval(MatMul(P, acc.M))
        b == TLCEval(RNeg(RDiv(Trace(PM), RI(n))))
    IN  TLCEval([M |-> [i \in 1..K(P) |-> [j \in 1..K(P) |-> IF i = j THEN RAdd(PM[i][j], b) ELSE PM[i][j]]],
                 c |-> Append(acc.c, b)])
CharPoly(P) ==
    Reverse(FoldLeft(LAMBDA acc, n : LevStep(P, acc, n), [M |-> Identity(K(P)), c |-> <<"1">>], [n \in 1..K(P) |-> n]).c)
Det(P) == LET c == CharPoly(P)[1] IN IF K(P) % 2 = 0 THEN c ELSE RNeg(c)
\* the same by expansion along the first row
RECURSIVE Cofactor(_)
Cofactor(A) ==
    LET n == Len(A) IN
    IF n = 0 THEN "1"
    ELSE RSum([j \in 1..n |->
            LET minor == [i \in 1..(n - 1) |-> [q \in 1..(n - 1) |-> A[i + 1][IF q < j THEN q ELSE q + 1]]]
                s == RMul(A[1][j], Cofactor(minor))
            IN  IF j % 2 = 1 THEN s ELSE RNeg(s)])

\* ---- number of roots of modulus below rho (Schur and Cohn); -1 when the
\* recursion degenerates, as it does when roots lie on the circle ----
RECURSIVE Inside(_)
Inside(a) ==
    LET n == Len(a) - 1
        g == RSub(RSq(a[1]), RSq(a[n + 1]))
    IN  IF n = 0 THEN 0
        ELSE IF RZero(a[1]) THEN LET r == Inside(Tail(a)) IN IF r < 0 THEN r ELSE r + 1
        ELSE IF RZero(a[n + 1]) THEN Inside(SubSeq(a, 1, n))
        ELSE IF RZero(g) THEN -1
        ELSE LET r == Inside(RCoprime([i \in 1..n |-> RSub(RMul(a[1], a[i]), RMul(a[n + 1], a[n + 2 - i]))]))
             IN  IF r < 0 THEN r ELSE IF RLt("0", g) THEN r ELSE n - r
RECURSIVE Powers(_, _)
Powers(rho, n) == IF n = 0 THEN <<"1">> ELSE LET p == Powers(rho, n - 1) IN Append(p, RMul(p[Len(p)], rho))
InsideCircle(c, rho) ==
    LET pw == TLCEval(Powers(rho, Len(c) - 1))
    IN  Inside(RCoprime([i \in 1..Len(c) |-> RMul(c[i], pw[i])]))
\* is x (within 4/q) the second largest modulus of the roots of c?
RECURSIVE Tried(_, _, _, _)
Tried(c, n, step, q) ==      \* first conclusive count on circles n/q, (n+step)/q, ..
    LET r == InsideCircle(c, RN(n, q)) IN IF r >= 0 THEN r ELSE Tried(c, n + step, step, q)
IsSecondModulus(c, x, q) ==
    LET k == Len(c) - 1
        f == RFloor(RMul(x, RI(q)))
    IN  /\ Tried(c, f + 4, 1, q) >= k - 1                   \* at most one root outside
        /\ f - 4 > 0 => Tried(c, f - 4, -1, q) <= k - 2     \* at least two not inside

\* ---- the indices ----
MP(P) == RDiv(RSub(RI(K(P)), Trace(P)), RI(K(P) - 1))
MD(P) == RSub("1", RAbs(Det(P)))
MB1(P, ini) == RDiv(RSub(RI(K(P)), RMul(RI(K(P)), RSum([i \in 1..K(P) |-> RMul(ini[i], P[i][i])]))), RI(K(P) - 1))
MB2(P, ini) ==
    RDiv(RSum([i \in 1..K(P) |-> RMul(ini[i], RSum([j \in 1..K(P) |-> RMul(P[i][j], RI(Abs(i - j)))]))]), RI(K(P) - 1))
Prais(P) == [i \in 1..K(P) |-> RSub("1", P[i][i])]

\* ---- judgement ----
Agrees(got, want) == RClose(got, want, Tol, Tiny)
JudgeMobility(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET k == K(in.P)
             uniform == TLCEval(Uniform(k))
             ini == IF in.ini = <<>> THEN uniform ELSE in.ini
             c == TLCEval(CharPoly(in.P))
         IN  Chk(Agrees(out.P, MP(in.P)), "P")
             \cup Chk(Agrees(out.default, MP(in.P)), "default")
             \cup Chk(RClose(out.D, MD(in.P), Tol, Tol), "D")
             \cup Chk(RIsFin(out.L2) /\ RLt("-1/1000000", out.L2) /\ RLt(out.L2, "1000001/1000000")
                      /\ IsSecondModulus(c, RSub("1", out.L2), IF in.simple THEN 2^26 ELSE 2^10), "L2")
             \cup Chk(Agrees(out.B1, MB1(in.P, ini)), "B1")
             \cup Chk(Agrees(out.B2, MB2(in.P, ini)), "B2")
             \cup Chk(Agrees(out.B1u, MB1(in.P, uniform)) /\ Agrees(out.B2u, MB2(in.P, uniform)), "uniform-default")
             \cup Chk(IsShape(out.prais, <<k>>) /\ \A i \in 1..k : Agrees(At1(out.prais, i), Prais(in.P)[i]), "prais")
             \cup (IF in.P = Identity(k)
                   THEN Chk(\A f \in {"P", "D", "L2", "B1u", "B2u"} : RClose(out[f], "0", "0", Tiny), "identity")
                   ELSE {})
=============================================================================
