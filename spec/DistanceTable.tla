--------------------------- MODULE DistanceTable ---------------------------
(* The matrix of distances of a list of sequences, computed for the distinct  *)
(* ones only: sequences are keyed by the text of their classes, each distinct *)
(* key gets a row of a small table in order of its text's first appearance,   *)
(* and every pair of the list is looked up there.  Classes 1, 2, 11 and 12    *)
(* make the texts of different sequences run together unless separated.       *)
EXTENDS Alignment
CONSTANTS N, Symbols, MaxLen
VARIABLES seqs, keys, rows, table, result
vars == <<seqs, keys, rows, table, result>>
Strings == UNION {[1..n -> Symbols] : n \in 1..MaxLen}
Text(s) == FoldLeft(LAMBDA t, c : t \o ToString(c) \o ",", "", s)
Cost(i, j) == RI(Abs(i - j))
Pairs2 == {p \in (1..N) \X (1..N) : p[1] < p[2]}
Init == seqs \in [1..N -> Strings] /\ keys = <<>> /\ rows = <<>> /\ table = <<>> /\ result = <<>>
\* read the next sequence
Read ==
    /\ Len(keys) < N
    /\ LET s == seqs[Len(keys) + 1]
           seen == \E r \in 1..Len(rows) : Text(rows[r]) = Text(s)
       IN  /\ keys' = Append(keys, Text(s))
           /\ rows' = IF seen THEN rows ELSE Append(rows, s)
    /\ UNCHANGED <<seqs, table, result>>
Tabulate ==
    /\ Len(keys) = N /\ table = <<>>
    /\ table' = [i \in 1..Len(rows) |-> [j \in 1..Len(rows) |->
                    IF i = j THEN "0" ELSE IF i < j THEN OM(rows[i], rows[j], Cost, "1") ELSE OM(rows[j], rows[i], Cost, "1")]]
    /\ UNCHANGED <<seqs, keys, rows, result>>
RowOf(u) == CHOOSE r \in 1..Len(rows) : Text(rows[r]) = keys[u]
LookUp ==
    /\ table # <<>> /\ result = <<>>
    /\ result' = [u \in 1..N |-> [v \in 1..N |-> IF u = v THEN "0" ELSE table[RowOf(u)][RowOf(v)]]]
    /\ UNCHANGED <<seqs, keys, rows, table>>
Next == Read \/ Tabulate \/ LookUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(result # <<>>)
KeysDistinct == \A u, v \in 1..Len(keys) : keys[u] = keys[v] <=> seqs[u] = seqs[v]
AllPairs == result # <<>> => \A u, v \in 1..N : result[u][v] = OM(seqs[u], seqs[v], Cost, "1")
ResultSymmetric == result # <<>> => \A u, v \in 1..N : result[u][v] = result[v][u] /\ (seqs[u] = seqs[v] => result[u][v] = "0")
=============================================================================
