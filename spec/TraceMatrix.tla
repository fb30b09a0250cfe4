----------------------------- MODULE TraceMatrix -----------------------------
EXTENDS TraceIO, MatrixUtil
Judge(e) ==
    CASE e.op = "fill" -> JudgeFill(e.in, e.out)
      [] e.op = "lower" -> JudgeLower(e.in, e.out)
      [] e.op = "shuffle" -> JudgeShuffle(e.in, e.out)
      [] e.op = "shuffle-draws" -> JudgeDraws(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
