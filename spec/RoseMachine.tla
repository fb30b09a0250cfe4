---------------------------- MODULE RoseMachine ----------------------------
(* Finding the sector of a vector by turning it back, one sector at a time,   *)
(* until it lies in the first one.                                            *)
EXTENDS Rose
CONSTANTS M, Ks
VARIABLES v, k, turned, sector
vars == <<v, k, turned, sector>>
Init == v \in (-M..M) \X (-M..M) /\ k \in Ks /\ turned = v /\ sector = 1
\* in [0, 2 pi / k)
InFirst(x, y) == IF k = 4 THEN (x > 0 /\ y >= 0) \/ (x = 0 /\ y = 0) ELSE (y >= 0 /\ x > y) \/ (x = 0 /\ y = 0)
TurnBack ==
    /\ ~InFirst(turned[1], turned[2])
    /\ turned' = IF k = 4 THEN <<turned[2], -turned[1]>> ELSE <<turned[1] + turned[2], turned[2] - turned[1]>>
    /\ sector' = sector + 1
    /\ UNCHANGED <<v, k>>
Spec == Init /\ [][TurnBack]_vars /\ WF_vars(TurnBack)
Done == InFirst(turned[1], turned[2])
Terminates == <>Done
InRange == sector \in 1..k
AsR(w) == <<RI(w[1]), RI(w[2])>>
Sec(w) == IF k = 4 THEN Sector4(AsR(w)) ELSE Sector8(AsR(w))
BySigns == Done => sector = Sec(v)
ByAngle == Done => PossibleExact(AsR(v), k) = {sector} /\ sector \in PossibleRounded(AsR(v), k, "1")
Opposite == (Done /\ v # <<0, 0>>) => Sec(<<-v[1], -v[2]>>) = Wrap(sector + k \div 2, k)
Quarter == (Done /\ v # <<0, 0>>) => Sec(<<-v[2], v[1]>>) = Wrap(sector + k \div 4, k)
Scaled == Done => Sec(<<3 * v[1], 3 * v[2]>>) = sector
Coarser == (Done /\ k = 8) => Sector4(AsR(v)) = (sector + 1) \div 2
Direction == Done => (SameDirection(k, sector) <=> (v[1] * v[2] > 0 \/ v = <<0, 0>> \/ (v[2] = 0 /\ v[1] # 0)))
\* other numbers of sectors: exactly one, except that the rounding of an edge
\* that is no binary fraction of the circle may decide
OtherK == (v = turned /\ sector = 1) => \A kk \in 1..24 :
    LET P == PossibleExact(AsR(v), kk) IN
    /\ P # {} /\ P \subseteq 1..kk /\ Cardinality(P) <= 2 /\ (PowerOf2(kk) => Cardinality(P) = 1)
    /\ \A s \in P : s \in NearSectors(AsR(v), kk, "1/1000000")
=============================================================================
