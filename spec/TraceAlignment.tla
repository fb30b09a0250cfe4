--------------------------- MODULE TraceAlignment ---------------------------
EXTENDS TraceIO, Alignment
Judge(e) ==
    CASE e.op = "om" -> JudgeOM(e.in, e.out)
      [] e.op = "scheme" -> JudgeScheme(e.in, e.out)
      [] e.op = "reject" -> JudgeReject(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
