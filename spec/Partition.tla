----------------------------- MODULE Partition -----------------------------
(* Connected components of undirected graphs.  E is a set of two-element sets *)
(* (or singletons: loops) of nodes.                                           *)
EXTENDS Base, TLC

RECURSIVE Grow(_, _)
Grow(E, seen) ==
    LET new == seen \cup UNION {e \in E : e \cap seen # {}}
    IN  IF new = seen THEN seen ELSE Grow(E, new)
Component(E, v) == Grow(E, {v})
RECURSIVE Peel(_, _)
Peel(E, rest) ==
    IF rest = {} THEN {}
    ELSE LET c == Component(E, CHOOSE v \in rest : TRUE) IN {c} \cup Peel(E, rest \ c)
Components(V, E) == Peel(E, V)
Connected(V, E) == \A v \in V : Component({e \in E : e \subseteq V}, v) = V

\* Declaratively: the coarsest partition no link crosses ... the finest one
IsPartition(V, P) ==
    /\ UNION P = V /\ {} \notin P
    /\ \A a, b \in P : a = b \/ a \cap b = {}
NoCrossing(P, E) == \A e \in E : \A a \in P : e \cap a = {} \/ e \subseteq a
=============================================================================
