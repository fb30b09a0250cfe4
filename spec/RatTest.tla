------------------------------ MODULE RatTest ------------------------------
(* Compares the evaluated operators of Rat with TLC's own integers.          *)
EXTENDS Base, TLC

R == -4..4
D == 1..4
VARIABLES a, b, c, d
Init == a \in R /\ b \in D /\ c \in R /\ d \in D
Next == UNCHANGED <<a, b, c, d>>

x == RN(a, b)
y == RN(c, d)
Field ==
    /\ RAdd(x, y) = RN(a * d + b * c, b * d)
    /\ RSub(x, y) = RN(a * d - b * c, b * d)
    /\ RMul(x, y) = RN(a * c, b * d)
    /\ c # 0 => RDiv(x, y) = RN(a * d, b * c)
    /\ RNeg(x) = RN(-a, b)
    /\ RAbs(x) = RN(Abs(a), b)
    /\ RSum(<<x, y, x>>) = RN(2 * a * d + c * b, b * d)
    /\ RDot(<<x, y>>, <<y, y>>) = RAdd(RMul(x, y), RMul(y, y))
    /\ RI(a) = RN(a * d, d)
    /\ RCoprime(<<x, "0">>) = <<RI(IF a = 0 THEN 0 ELSE a \div Abs(a)), "0">>
    /\ LET s == RCoprime(<<x, y>>) IN RMul(s[1], y) = RMul(s[2], x) /\ RIsInt(s[1]) /\ RIsInt(s[2]) /\ RLeq("0", RMul(s[1], x)) /\ RLeq("0", RMul(s[2], y))
Order ==
    /\ RLt(x, y) <=> a * d < c * b
    /\ RLeq(x, y) <=> a * d <= c * b
    /\ REq(x, y) <=> a * d = c * b
    /\ (x = y) <=> a * d = c * b
    /\ RFloor(x) = a \div b
    /\ RIsInt(x) <=> a % b = 0
    /\ RClose(x, y, "0", "1/2") <=> 2 * Abs(a * d - c * b) <= b * d
    /\ RClose(x, y, "1/2", "0") <=> 2 * Abs(a * d - c * b) <= b * Abs(c)
Special ==
    /\ RAdd(x, "nan") = "nan" /\ RAdd(x, "inf") = "inf" /\ RSub(x, "inf") = "-inf"
    /\ RDiv("0", "0") = "nan" /\ RDiv("1", "0") = "inf" /\ RDiv("-1", "0") = "-inf"
    /\ ~RLt("nan", x) /\ ~RLt(x, "nan") /\ RLt(x, "inf") /\ RLt("-inf", x)
    /\ RClose("inf", "inf", Tol, Tol) /\ ~RClose("inf", x, Tol, Tol) /\ ~RClose("nan", x, Tol, Tol)
    /\ RIsFin(x) /\ ~RIsFin("nan") /\ ~RIsFin("inf")
Transcendental ==
    /\ a >= 0 => RSqrt(RSq(x)) = x
    /\ a > 0 => RClose(RExp(RLog(x)), x, "1/100000000000000", "0")
    /\ a > 0 => RClose(RSq(RSqrt(x)), x, "1/100000000000000000000", "0")
    /\ RClose(RLog(RMul(RExp(x), RExp(y))), RAdd(x, y), "1/10000000000000", "1/10000000000000")
    /\ RClose(RAdd(RErfc(x), RErfc(RNeg(x))), "2", Tiny, "0")
    /\ RClose(RAtan2("1", "1"), RDiv(RPi, "4"), Ulps, "0")
    /\ RClose(RErfc("1"), "1572992070502851306/10000000000000000000", Tiny, "0")
    /\ RClose(RErfc("3"), "2209049699858544137/100000000000000000000000", Tiny, "0")
Known ==
    /\ RClose(Chi2SF("3841458820694124/1000000000000000", 1), "1/20", Tol, "0")
    /\ RClose(Chi2SF("5991464547107979/1000000000000000", 2), "1/20", Tol, "0")
    /\ RClose(Chi2SF("7814727903251179/1000000000000000", 3), "1/20", Tol, "0")
    /\ RClose(Chi2SF("9487729036781154/1000000000000000", 4), "1/20", Tol, "0")
    /\ RClose(Chi2SF("18307038053275146/1000000000000000", 10), "1/20", Tol, "0")
    /\ RClose(Chi2SF("19675137572682495/1000000000000000", 11), "1/20", Tol, "0")
=============================================================================
