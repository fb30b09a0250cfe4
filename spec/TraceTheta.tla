----------------------------- MODULE TraceTheta -----------------------------
EXTENDS TraceIO, Theta
Judge(e) == CASE e.op = "theta" -> JudgeTheta(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
