----------------------------- MODULE TraceLisa -----------------------------
EXTENDS TraceIO, Lisa
Judge(e) ==
    CASE e.op = "LISA_Markov" -> JudgeLisa(e.in, e.out)
      [] e.op = "spillover" -> JudgeSpillover(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
