----------------------------- MODULE TraceChain -----------------------------
EXTENDS TraceIO, Chain
Judge(e) ==
    CASE e.op = "structure" -> JudgeStructure(e.in, e.out)
      [] e.op = "sojourn" -> JudgeSojourn(e.in, e.out)
      [] e.op = "steady" -> JudgeSteadyState(e.in, e.out)
      [] e.op = "Markov.steady" -> JudgeMarkovSteady(e.in, e.out)
      [] e.op = "mfpt" -> JudgeMfpt(e.in, e.out)
      [] e.op = "Markov.mfpt" -> JudgeMarkovMfpt(e.in, e.out)
      [] e.op = "var" -> JudgeVar(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
