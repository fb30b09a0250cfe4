-------------------------- MODULE TraceHomogeneity --------------------------
EXTENDS TraceIO, Homogeneity
Judge(e) ==
    CASE e.op = "homogeneity" -> JudgeHomogeneity(e.in, e.out)
      [] e.op = "kullback" -> JudgeKullback(e.in, e.out)
      [] e.op = "chi2" -> JudgeChi2(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
