---------------------------- MODULE TraceReports ----------------------------
EXTENDS TraceIO, Reports
Judge(e) ==
    CASE e.op = "chain" -> JudgeChainReport(e.in, e.out)
      [] e.op = "sojourn" -> JudgeSojournReport(e.in, e.out)
      [] e.op = "homogeneity" -> JudgeHomogeneitySummary(e.in, e.out)
      [] e.op = "spatial" -> JudgeSpatialSummary(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
