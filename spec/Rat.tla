-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers for TLC, whose own integers have 32 bits.          *)
(*                                                                           *)
(* A number is a canonical string, "n" or "n/d" in lowest terms with d > 1,  *)
(* so that equal numbers are equal strings; "nan", "inf" and "-inf" stand    *)
(* for the non-finite results of floating point code.  The operators below   *)
(* are evaluated by java/gv/RatImpl.java; the definitions given here say     *)
(* what they mean on the small integers that RatTest compares them on.       *)
LOCAL INSTANCE Sequences
LOCAL INSTANCE Naturals

IsR(r) == r \in STRING

RI(i) == CHOOSE r \in STRING : IsR(r)              \* the integer i
RN(n, d) == CHOOSE r \in STRING : IsR(r)           \* n / d
RAdd(a, b) == CHOOSE r \in STRING : IsR(r)
RSub(a, b) == CHOOSE r \in STRING : IsR(r)
RMul(a, b) == CHOOSE r \in STRING : IsR(r)
RDiv(a, b) == CHOOSE r \in STRING : IsR(r)         \* x/0 = inf, -inf or nan
RNeg(a) == CHOOSE r \in STRING : IsR(r)
RAbs(a) == CHOOSE r \in STRING : IsR(r)
RLt(a, b) == CHOOSE r \in BOOLEAN : TRUE           \* FALSE for nan
RLeq(a, b) == CHOOSE r \in BOOLEAN : TRUE
REq(a, b) == CHOOSE r \in BOOLEAN : TRUE           \* the same value (nan = nan)
RIsFin(a) == CHOOSE r \in BOOLEAN : TRUE
RIsInt(a) == CHOOSE r \in BOOLEAN : TRUE
RFloor(a) == CHOOSE i \in Nat : TRUE
\* a is within at + rt*|b| of b, or the same non-finite value
RClose(a, b, rt, at) == CHOOSE r \in BOOLEAN : TRUE
RSum(s) == CHOOSE r \in STRING : IsR(r)            \* sum of a sequence
\* a sequence of finite numbers times the positive number that makes its
\* entries integers without a common divisor
RCoprime(s) == CHOOSE r \in Seq(STRING) : Len(r) = Len(s)
RDot(s, t) == CHOOSE r \in STRING : IsR(r)         \* inner product
RSqrt(a) == CHOOSE r \in STRING : IsR(r)           \* exact for squares
RLog(a) == CHOOSE r \in STRING : IsR(r)
RExp(a) == CHOOSE r \in STRING : IsR(r)
RErfc(a) == CHOOSE r \in STRING : IsR(r)
RAtan2(y, x) == CHOOSE r \in STRING : IsR(r)
RPi == CHOOSE r \in STRING : IsR(r)
=============================================================================
