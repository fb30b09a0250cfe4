--------------------------- MODULE TraceCounting ---------------------------
EXTENDS TraceIO, Counting
Judge(e) == IF e.op = "unlisted" THEN JudgeUnlisted(e.in, e.out) ELSE JudgeMarkov(e.in, e.out)
TraceNext == TNext(Judge)
=============================================================================
