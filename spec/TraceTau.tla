------------------------------ MODULE TraceTau ------------------------------
EXTENDS TraceIO, Tau
Judge(e) ==
    CASE e.op = "tau" -> JudgeTau(e.in, e.out)
      [] e.op = "spatial" -> JudgeSpatialTau(e.in, e.out)
      [] e.op = "local" -> JudgeLocal(e.in, e.out)
      [] e.op = "neighbor" -> JudgeNeighbor(e.in, e.out)
      [] e.op = "neighborhood" -> JudgeNeighborhood(e.in, e.out)
      [] e.op = "regional" -> JudgeRegional(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
