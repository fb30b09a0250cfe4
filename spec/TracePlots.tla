----------------------------- MODULE TracePlots -----------------------------
EXTENDS TraceIO, Plots
Judge(e) ==
    CASE e.op = "heatmap" -> JudgeHeatmap(e.in, e.out) \cup JudgeFrame(e.in, e.out)
      [] e.op = "roseplot" -> JudgeRosePlot(e.in, e.out)
      [] e.op = "vectors" -> JudgeVectors(e.in, e.out)
      [] e.op = "origin" -> JudgeOrigin(e.in, e.out)
      [] e.op = "composite" -> JudgeComposite(e.in, e.out)
      [] e.op = "explore" -> JudgeExplore(e.in, e.out)
      [] e.op = "failing" -> JudgeFailure(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
