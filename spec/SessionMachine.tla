--------------------------- MODULE SessionMachine ---------------------------
(* All sessions, and inside the objects their design: attributes are computed *)
(* when first read, from others that are computed and kept on the way.        *)
EXTENDS Session, Json
CONSTANTS Use, MaxObjs, Depth, Rs, OthersToo
VARIABLES objs, cache, hist
vars == <<objs, cache, hist>>

\* ---- what is computed from what ----
Deps(kind, a) ==
    IF kind \in {"spatial", "spatialp", "spatiald"} THEN
        CASE a = "s" -> {"p"} [] a = "S" -> {"P"} [] a = "f" -> {"p"} [] a = "F" -> {"P"}
          [] a \in {"Q", "Q_p_value", "LR", "LR_p_value", "dof_hom"} -> {"ht"} [] a = "ht" -> {"T"}
          [] a = "shtest" -> {"s", "S", "T"} [] a = "chi2" -> {"T", "transitions"}
          [] a = "x2" -> {"chi2"} [] a = "x2_pvalue" -> {"x2", "x2_dof"} [] a = "x2_dof" -> {"k"}
          [] OTHER -> {}
    ELSE IF a \in {"steady_state", "mfpt", "sojourn_time"} THEN {"p"} ELSE {}
RECURSIVE Closure(_, _)
Closure(kind, S) ==
    LET more == S \cup UNION {Deps(kind, a) : a \in S} IN IF more = S THEN S ELSE Closure(kind, more)
\* the value an attribute is computed as: a term over the version of the data
Version(o, a) == IF a \in PermAttrs /\ o.kind = "rose" THEN (IF a = "p" THEN o.pepoch ELSE o.epoch) ELSE 0
Cached(c, a) == \E q \in 1..Len(c) : c[q][1] = a
\* reading keeps every value computed on the way
RECURSIVE Compute(_, _, _)
Compute(o, c, a) ==
    IF Cached(c, a) THEN c
    ELSE LET c2 == FoldSet(LAMBDA b, acc : Compute(o, acc, b), c, Deps(o.kind, a))
         IN  Append(c2, <<a, Version(o, a)>>)

Init == objs = <<>> /\ cache = <<>> /\ hist = <<>>
Live == IF objs = <<>> THEN {} ELSE {objs[i].kind : i \in 1..Len(objs)}
Actions ==
    (IF Len(objs) < MaxObjs THEN {New(k) : k \in Use} ELSE {})
    \cup UNION {{Read(o, a) : a \in Attrs(objs[o].kind)} : o \in 1..Len(objs)}
    \cup UNION {{Call(o, m) : m \in Methods(objs[o].kind)} : o \in 1..Len(objs)}
    \cup UNION {IF objs[o].kind = "rose" THEN {Permute(o, R, alt) : R \in Rs, alt \in Alternatives} ELSE {} : o \in 1..Len(objs)}
    \cup (IF OthersToo /\ objs # <<>> THEN {Other(f) : f \in Others} ELSE {})
Do(a) ==
    /\ objs' = After(objs, a, 0)
    /\ cache' = CASE a.op = "new" -> Append(cache, <<>>)
                  [] a.op = "read" -> IF Drawn(objs[a.obj], a.attr) THEN cache
                                      ELSE [cache EXCEPT ![a.obj] = Compute(objs[a.obj], @, a.attr)]
                  [] OTHER -> cache
    /\ hist' = Append(hist, a)
Next == Len(hist) < Depth /\ \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars

AlwaysEnabled == \A a \in Actions : Enabled1(objs, a)
\* whatever the order of reads, what is kept is what the reads so far need, once,
\* and never outdated
CacheIsClosure == \A o \in 1..Len(objs) :
    LET reads == {hist[i].attr : i \in {j \in 1..Len(hist) : hist[j].op = "read" /\ hist[j].obj = o}}
        settled == {a \in reads : ~(objs[o].kind = "rose" /\ a \in PermAttrs)}
        kept == {cache[o][q][1] : q \in 1..Len(cache[o])}
    IN  /\ settled \subseteq kept /\ kept \ PermAttrs \subseteq Closure(objs[o].kind, reads)
        /\ \A q, r \in 1..Len(cache[o]) : cache[o][q][1] = cache[o][r][1] => q = r
        /\ \A q \in 1..Len(cache[o]) : cache[o][q][2] = 0
EpochsCount == \A o \in 1..Len(objs) :
    /\ objs[o].epoch = Cardinality({i \in 1..Len(hist) : hist[i].op = "permute" /\ hist[i].obj = o})
    /\ objs[o].pepoch <= objs[o].epoch
    /\ objs[o].epoch > 0 => objs[o].R \in Rs
\* reads and calls change no object, permutations only their own
OnlyOwn == [][\A o \in 1..Len(objs) : objs'[o] # objs[o] => Last(hist').op \in {"permute", "read"} /\ Last(hist').obj = o]_vars
Export == Len(hist) = Depth => PrintT("CASE " \o ToJson(hist))
=============================================================================
