---------------------------- MODULE TraceEffects ----------------------------
EXTENDS TraceIO, Effects
Judge(e) ==
    CASE e.op = "effects" -> JudgeEffects(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
