-------------------------------- MODULE Base --------------------------------
(* Vocabulary shared by all specifications: failing clauses, recorded        *)
(* arrays, and tolerant comparison.                                          *)
EXTENDS Integers, Sequences, FiniteSets, Rat, SequencesExt, FiniteSetsExt, Functions

\* A judgement is the set of names of the clauses that an observation fails.
Chk(cond, name) == IF cond THEN {} ELSE {name}
\* Further clauses are evaluated only when the guard holds.
ChkThen(cond, name, more) == IF cond THEN more ELSE {name}

Has(rec, field) == field \in DOMAIN rec
Raised(out) == Has(out, "exc")

\* ---- recorded arrays: [sh |-> shape, d |-> flat data in row-major order] ----
Size(sh) == FoldLeft(LAMBDA a, b : a * b, 1, sh)
IsArr(A) == DOMAIN A = {"sh", "d"} /\ Len(A.d) = Size(A.sh)
IsShape(A, sh) == IsArr(A) /\ A.sh = sh
At1(A, i) == A.d[i]
At2(A, i, j) == A.d[(i - 1) * A.sh[2] + j]
At3(A, h, i, j) == A.d[((h - 1) * A.sh[2] + (i - 1)) * A.sh[3] + j]
Row(A, i) == [j \in 1..A.sh[2] |-> At2(A, i, j)]
Col(A, j) == [i \in 1..A.sh[1] |-> At2(A, i, j)]
Mat(A) == [i \in 1..A.sh[1] |-> Row(A, i)]
NRows(M) == Len(M)
NCols(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])

\* ---- numbers ----
Tol == "1/1000000000"              \* 1e-9
Tiny == "1/1000000000000"          \* 1e-12
Ulps == "1/1000000000000000"       \* 1e-15: a few roundings
Near(a, b) == RClose(a, b, Tol, Tol)
NearRel(a, b) == RClose(a, b, Tol, "0")
Exact(a, b) == RClose(a, b, Ulps, "0")
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RPos(a) == RLt("0", a)
RSq(a) == RMul(a, a)
RZero(a) == REq(a, "0")
Seqs(S, n) == [1..n -> S]

\* sum over a finite set of indices of op(i)
SumOver(S, op(_)) == LET q == SetToSeq(S) IN RSum([i \in 1..Len(q) |-> op(q[i])])
SumTo(n, op(_)) == RSum([i \in 1..n |-> op(i)])

SumInt(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* h hits among R independent draws of an event that mult of N equally likely
\* cases produce: within seven standard deviations of what is expected
FairHits(h, mult, N, R) ==
    RLeq(RSq(RSub(RMul(RI(h), RI(N)), RMul(RI(mult), RI(R)))),
         RMul(RMul("49", RI(R)), RMul(RI(mult), RI(N - mult))))
MaxInt(S) == CHOOSE x \in S : \A y \in S : y <= x
MinInt(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(i) == IF i < 0 THEN -i ELSE i

\* upper tail of the chi-squared distribution with d >= 1 degrees of freedom
RECURSIVE SumTerms(_, _, _, _, _)
\* sum over m = 0..n-1 of exp(lt + m*logh - log((s+1)...(s+m))); s is 0 or 1/2
SumTerms(logh, s, n, lt, acc) ==
    IF n = 0 THEN acc
    ELSE LET s1 == RAdd(s, "1")
         IN  SumTerms(logh, s1, n - 1, RSub(RAdd(lt, logh), RLog(s1)), RAdd(acc, RExp(lt)))

Chi2SF(x, d) ==
    IF ~RIsFin(x) THEN IF x = "inf" THEN "0" ELSE "nan"
    ELSE IF d = 0 THEN "nan"
    ELSE IF RLeq(x, "0") THEN "1"
    ELSE LET h == RDiv(x, "2")
             logh == RLog(h)
         IN  IF d % 2 = 0
             THEN SumTerms(logh, "0", d \div 2, RNeg(h), "0")
             ELSE \* erfc(sqrt h) + exp(-h) * sum_{i=1..} h^(i-1/2) / Gamma(i+1/2)
                  RAdd(RErfc(RSqrt(h)),
                       SumTerms(logh, "1/2", (d - 1) \div 2,
                                RAdd(RNeg(h), RAdd(RDiv(logh, "2"),
                                     RSub(RLog("2"), RDiv(RLog(RPi), "2")))), "0"))
=============================================================================
