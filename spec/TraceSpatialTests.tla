------------------------- MODULE TraceSpatialTests -------------------------
EXTENDS TraceIO, SpatialTests
Judge(e) ==
    CASE e.op = "inference" -> JudgeInference(e.in, e.out)
      [] e.op = "permutations" -> JudgePermuted(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
