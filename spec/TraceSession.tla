---------------------------- MODULE TraceSession ----------------------------
EXTENDS TraceIO, Session, Rose
\* the results of a rose's permutations at the end describe its last call
AltName(alt) == CASE alt = "two-sided" -> "two" [] alt = "nonsense" -> "unknown" [] OTHER -> alt
JudgeFinal(o, f) ==
    IF o.kind # "rose" \/ o.epoch = 0 THEN {}
    ELSE LET in == [k |-> f.k, y |-> [u \in 1..f.n |-> <<"0", "0">>]]
             call == [R |-> o.R, alt |-> AltName(o.alt), name |-> o.alt]
         IN  {"last-call-" \o c : c \in JudgeCall(in, call, f, f.counts.d)}
Judge(e) ==
    CASE e.op = "session" ->
            LET bad == JudgeSession(e.in, e.out) IN
            IF Raised(e.out) \/ Len(e.out.steps) # Len(e.in.steps) THEN bad
            ELSE LET objs == ObjectsAfter(e.in, e.out) IN
                 bad \cup ChkThen(Len(objs) = Len(e.out.finals), "objects", UNION {JudgeFinal(objs[o], e.out.finals[o]) : o \in 1..Len(objs)})
TraceNext == TNext(Judge)
=============================================================================
