---------------------------- MODULE TraceMobility ----------------------------
EXTENDS TraceIO, Mobility
Judge(e) == CASE e.op = "mobility" -> JudgeMobility(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
