------------------------- MODULE TraceRankInference -------------------------
EXTENDS TraceIO, RankInference
Judge(e) ==
    CASE e.op = "spatial" -> JudgeSpatialPerms(e.in, e.out)
      [] e.op = "neighbor" -> JudgeNeighborPerms(e.in, e.out)
      [] e.op = "neighborhood" -> JudgeHoodPerms(e.in, e.out)
      [] e.op = "regional" -> JudgeRegionalPerms(e.in, e.out)
      [] e.op = "unasked" -> JudgeUnasked(e.in, e.out)
      [] e.op = "theta" -> JudgeThetaPerms(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
