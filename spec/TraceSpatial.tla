---------------------------- MODULE TraceSpatial ----------------------------
EXTENDS TraceIO, SpatialMarkov
Judge(e) ==
    CASE e.op = "Spatial_Markov" -> JudgeSpatial(e.in, e.out)
      [] e.op = "discrete" -> JudgeDiscrete(e.in, e.out)
      [] e.op = "ties" -> JudgeTies(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
