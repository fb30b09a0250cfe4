----------------------------- MODULE TraceRose -----------------------------
EXTENDS TraceIO, Rose
Judge(e) ==
    CASE e.op = "rose" -> JudgeRose(e.in, e.out)
      [] e.op = "permute" -> JudgePermute(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
