------------------------- MODULE TraceConnectivity -------------------------
EXTENDS TraceIO, Connectivity
Judge(e) ==
    CASE e.op = "check_contiguity" -> JudgeContiguity(e.in, e.out)
      [] e.op = "Graph" -> JudgeGraph(e.in, e.out)
      [] e.op = "graphs" -> JudgeGraphs(e.in, e.out)
      [] e.op = "is_component" -> JudgeIsComponent(e.in, e.out)
      [] e.op = "path" -> JudgePath(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
