------------------------------ MODULE Reports ------------------------------
(* The reports printed for chains and for homogeneity tests.                 *)
(* The report on a chain is a sequence of tokens, read by a small machine;    *)
(* that on a homogeneity test is a sequence of lines of fields, which the     *)
(* results determine.                                                        *)
EXTENDS Chain, Homogeneity

\* ---- the report on the structure of a chain ----
Report(succ) ==
    LET reach == Reach(succ)
    IN  [kind |-> IF Cardinality(Communicating(reach)) = 1 THEN "irreducible" ELSE "reducible",
         Recurrent |-> Recurrent(reach), Transient |-> Transient(reach), absorbing |-> {{i} : i \in Absorbing(succ)}]
Sections == {"Recurrent", "Transient", "absorbing"}

\* the reader: what has been read so far
Start == [kind |-> "", last |-> "", section |-> "none", open |-> FALSE, group |-> <<>>,
          number |-> [s \in Sections |-> ""], groups |-> [s \in Sections |-> <<>>], bad |-> FALSE]
ReadToken(r, t) ==
    IF t \in {"irreducible", "reducible"} THEN [r EXCEPT !.kind = t, !.bad = r.bad \/ r.kind # "" \/ r.open]
    ELSE IF t \in Sections /\ r.section # t
         THEN [r EXCEPT !.section = t, !.number[t] = r.last, !.last = "", !.bad = r.bad \/ r.open \/ r.number[t] # ""]
    ELSE IF t = "[" THEN [r EXCEPT !.open = TRUE, !.group = <<>>, !.bad = r.bad \/ r.open \/ r.section = "none"]
    ELSE IF t = "]" THEN [r EXCEPT !.open = FALSE, !.bad = r.bad \/ ~r.open,
                                   !.groups = IF r.section = "none" THEN @ ELSE [@ EXCEPT ![r.section] = Append(@, r.group)]]
    ELSE IF r.open THEN [r EXCEPT !.group = Append(@, t)]
    ELSE [r EXCEPT !.last = t]
ReadAll(tokens) == FoldLeft(ReadToken, Start, tokens)

\* states are printed as their positions, from 0
Names(S) == {RI(i - 1) : i \in S}
SectionSays(r, s, sets) ==
    /\ r.number[s] = RI(Cardinality(sets))
    /\ Len(r.groups[s]) = Cardinality(sets)
    /\ {Range(r.groups[s][g]) : g \in 1..Len(r.groups[s])} = {Names(S) : S \in sets}
    /\ \A g \in 1..Len(r.groups[s]) : Len(r.groups[s][g]) = Cardinality(Range(r.groups[s][g]))
JudgeStructureReport(succ, tokens) ==
    LET r == TLCEval(ReadAll(tokens))
        rep == TLCEval(Report(succ))
    IN  ChkThen(~r.bad /\ ~r.open, "unreadable",
          Chk(r.kind = rep.kind, "reducibility")
          \cup Chk(SectionSays(r, "Recurrent", rep.Recurrent), "recurrent-classes")
          \cup Chk(SectionSays(r, "Transient", rep.Transient), "transient-classes")
          \cup Chk(SectionSays(r, "absorbing", rep.absorbing), "absorbing-states"))

JudgeChainReport(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET P == IF in.data = <<>> THEN Filled(out.P) ELSE Probs(Counts(in.data, in.k), TRUE)
         IN  (IF in.summary THEN JudgeStructureReport(Succ(P), out.tokens) ELSE Chk(out.tokens = <<>>, "silent"))
             \cup Chk(out.with = out.without, "changes-results")

\* the states the report on sojourn times names
JudgeSojournReport(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET abs == Absorbing(Succ(Filled(in.P)))
         IN  IF ~in.summary \/ abs = {} THEN Chk(out.tokens = <<>>, "silent")
             ELSE Chk(Len(out.tokens) = Cardinality(abs) /\ Range(out.tokens) = Names(abs), "absorbing-states")
             
\* ---- the report on a homogeneity test ----
T(s) == [kind |-> "text", v |-> s]
V(x) == [kind |-> "value", v |-> x]
Texts(ss) == [i \in 1..Len(ss) |-> T(ss[i])]
Matrix(label, classes, P) ==
    <<(<<T(label)>> \o Texts(SubSeq(classes, 1, Len(P[1]))))>>
    \o [i \in 1..Len(P) |-> <<T(classes[i])>> \o [j \in 1..Len(P[1]) |-> V(P[i][j])]]
Default(names, n) == IF Len(names) > 0 THEN names ELSE [i \in 1..n |-> RI(i - 1)]
\* ps: the p-values of LR and Q
HomogeneityLines(M, classNames, regimeNames, title, qname, ps) ==
    LET m == Len(M)
        cs == Default(classNames, Max({NR(M), NC(M)}))
        rs == Default(regimeNames, m)
        d == RI(DoF(M))
    IN  <<(<<T(title)>>), <<T("Number of classes"), T(RI(NC(M)))>>, <<T("Number of transitions"), T(RI(SumInt(RowSums(Pooled(M)))))>>,
          <<T("Number of regimes"), T(RI(m))>>, <<T("Regime names")>> \o Texts(rs),
          <<T("Test"), T("LR"), T(qname)>>, <<T("Stat."), V(Total3(LTable(M))), V(Total3(QTable(M)))>>,
          <<T("DOF"), T(d), T(d)>>, <<T("p-value"), V(ps[1]), V(ps[2])>> >>
        \o Matrix("P(H0)", cs, Proportions(Pooled(M)))
        \o FlattenSeq([h \in 1..m |-> Matrix("P(" \o rs[h] \o ")", cs, Proportions(M[h]))])

Rounding == "500001/1000000000"
FieldSays(f, w) ==
    IF w.kind = "text" THEN f.s = w.v
    ELSE IF w.v = "nan" THEN f.s = "nan"
    ELSE RClose(f.v, w.v, Tol, Rounding)
\* a field: [s |-> its text, v |-> the number it says, if any]
LineSays(l, w) == Len(l) = Len(w) /\ \A i \in 1..Len(w) : FieldSays(l[i], w[i])
\* clauses named after the part of the report that differs
PartOf(i) == CASE i = 1 -> "title" [] i \in 2..4 -> "numbers" [] i = 5 -> "regime-names" [] i \in 6..7 -> "statistics"
               [] i = 8 -> "dof" [] i = 9 -> "p-values" [] OTHER -> "probabilities"
JudgeLines(lines, want) ==
    IF Len(lines) # Len(want) THEN {"lines"}
    ELSE UNION {Chk(LineSays(lines[i], want[i]), PartOf(i)) : i \in 1..Len(want)}

JudgeHomogeneityReport(M, in, out) ==
    LET ps == <<out.LRp, out.Qp>>
    IN  JudgeLines(out.lines, TLCEval(HomogeneityLines(M, in.classes, in.regimes, in.title, "Chi-2", ps)))
        \cup Chk(out.before = out.after, "changes-results")
        \cup (IF ~in.file THEN Chk(out.files = <<>>, "files")
              ELSE Chk(out.files = <<in.name \o ".tex">>, "files")
                   \cup {"table-" \o c : c \in JudgeLines(out.table, TLCEval(HomogeneityLines(M, in.classes, in.regimes, in.title, "Q", ps)))})
JudgeHomogeneitySummary(in, out) == IF Raised(out) THEN {"raised"} ELSE JudgeHomogeneityReport(in.M, in, out)
\* M: the conditional counts the Spatial_Markov object reports
SpatialNames(in, M) ==
    [in EXCEPT !.classes = [i \in 1..Len(M[1]) |-> "C" \o RI(i - 1)], !.regimes = [h \in 1..Len(M) |-> "LAG" \o RI(h - 1)],
               !.title = IF in.title = "" THEN "Spatial Markov Test" ELSE "Spatial Markov Test: " \o in.title]
JudgeSpatialSummary(in, out) ==
    IF Raised(out) THEN {"raised"} ELSE JudgeHomogeneityReport(out.M, SpatialNames(in, out.M), out)
=============================================================================
