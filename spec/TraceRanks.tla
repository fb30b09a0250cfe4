----------------------------- MODULE TraceRanks -----------------------------
EXTENDS TraceIO, Ranks
Judge(e) ==
    CASE e.op = "FullRank" -> JudgeFullRank(e.in, e.out)
      [] e.op = "GeoRank" -> JudgeGeoRank(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
