------------------------------ MODULE TraceIO ------------------------------
(* Reading recorded observations of the real code and judging every one.     *)
(* Each event is judged in a step of its own (in parallel by TLC's workers); *)
(* the harness checks that a verdict was printed for every event.            *)
EXTENDS TLC, Json, IOUtils, Integers, Sequences, SequencesExt

VARIABLES ev, judged

Events == ndJsonDeserialize(IOEnv.VERIF_TRACE)

TInit == ev \in 1..Len(Events) /\ judged = FALSE
TNext(Judge(_)) ==
    /\ ~judged
    /\ LET failed == Judge(Events[ev])
       IN  PrintT("VERDICT " \o ToString(ev) \o " " \o ToJson(SetToSeq(failed)))
    /\ judged' = TRUE
    /\ UNCHANGED ev
=============================================================================
