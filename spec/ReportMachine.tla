--------------------------- MODULE ReportMachine ---------------------------
(* A chain is observed one transition at a time; then its report is written   *)
(* token by token, the classes in any order, and read as it appears.          *)
EXTENDS Reports
CONSTANTS N
VARIABLES succ, tape, stage, rd, pos
vars == <<succ, tape, stage, rd, pos>>
Order == <<"Recurrent", "Transient", "absorbing">>
Init == succ = [i \in 1..N |-> {}] /\ tape = <<>> /\ stage = 0 /\ rd = Start /\ pos = 0
FilledSucc == [i \in 1..N |-> IF succ[i] = {} THEN {i} ELSE succ[i]]
Rep == Report(FilledSucc)
Observe(i, j) == /\ stage = 0 /\ j \notin succ[i] /\ succ' = [succ EXCEPT ![i] = @ \cup {j}]
                 /\ UNCHANGED <<tape, stage, rd, pos>>
Head0 == <<"The", "Chain", "is", Rep.kind, "and">>
Group(S) == <<"[">> \o [q \in 1..Cardinality(S) |-> RI(SetToSortSeq(S, <)[q] - 1)] \o <<"]">>
Section(s, order) == <<RI(Len(order)), s>> \o FlattenSeq([g \in 1..Len(order) |-> Group(order[g])])
Write == /\ stage < 4 /\ stage' = stage + 1 /\ UNCHANGED <<succ, rd, pos>>
         /\ IF stage = 0 THEN tape' = Head0
            ELSE LET S == Rep[Order[stage]]
                 IN  \E order \in [1..Cardinality(S) -> S] :
                        /\ Range(order) = S
                        /\ tape' = tape \o Section(Order[stage], order)
Read == pos < Len(tape) /\ pos' = pos + 1 /\ rd' = ReadToken(rd, tape[pos + 1]) /\ UNCHANGED <<succ, tape, stage>>
Next == (\E i, j \in 1..N : Observe(i, j)) \/ Write \/ Read
Spec == Init /\ [][Next]_vars
\* nothing read is ever wrong ...
Sound == /\ ~rd.bad
         /\ rd.kind \in {"", Rep.kind}
         /\ \A s \in Sections : \A g \in 1..Len(rd.groups[s]) : \E S \in Rep[s] : Range(rd.groups[s][g]) = Names(S)
\* ... and in the end all of it has been
Complete == stage = 4 /\ pos = Len(tape) => JudgeStructureReport(FilledSucc, tape) = {}
\* a report with a part left out does not pass
Detects == stage = 4 /\ pos = 0 =>
    \A q \in 1..Len(tape) : tape[q] \in {"[", "]"} \cup {RI(i) : i \in 0..N} \cup Sections \cup {Rep.kind} =>
        JudgeStructureReport(FilledSucc, SubSeq(tape, 1, q - 1) \o SubSeq(tape, q + 1, Len(tape))) # {}
=============================================================================
