-------------------------------- MODULE Rose --------------------------------
(* Directional LISAs: the changes of values and of their spatial lags between *)
(* the first and the last period, counted by circular sectors.                *)
EXTENDS Lags, Draws

\* ---- vectors: <<dx, dy>> of rational strings ----
VectorsOf(y, L) ==
    LET T == Len(y[1]) IN [u \in 1..Len(y) |-> <<RSub(y[u][T], y[u][1]), RSub(L[u][T], L[u][1])>>]
Vectors(y, W) == TLCEval(VectorsOf(y, LagPanel(W, y)))
Sgn(a) == IF RLt("0", a) THEN 1 ELSE IF RLt(a, "0") THEN -1 ELSE 0
\* position in eighths of a turn: <<m, TRUE>> exactly m eighths, <<m, FALSE>>
\* strictly between m and m + 1 eighths
Eighth(v) ==
    LET sx == Sgn(v[1])
        sy == Sgn(v[2])
        c == IF RLt(RAbs(v[2]), RAbs(v[1])) THEN -1 ELSE IF REq(RAbs(v[1]), RAbs(v[2])) THEN 0 ELSE 1
    IN  CASE sy = 0 -> IF sx >= 0 THEN <<0, TRUE>> ELSE <<4, TRUE>>
          [] sx = 0 -> IF sy > 0 THEN <<2, TRUE>> ELSE <<6, TRUE>>
          [] sx > 0 /\ sy > 0 -> IF c = 0 THEN <<1, TRUE>> ELSE <<IF c < 0 THEN 0 ELSE 1, FALSE>>
          [] sx < 0 /\ sy > 0 -> IF c = 0 THEN <<3, TRUE>> ELSE <<IF c > 0 THEN 2 ELSE 3, FALSE>>
          [] sx < 0 /\ sy < 0 -> IF c = 0 THEN <<5, TRUE>> ELSE <<IF c < 0 THEN 4 ELSE 5, FALSE>>
          [] sx > 0 /\ sy < 0 -> IF c = 0 THEN <<7, TRUE>> ELSE <<IF c > 0 THEN 6 ELSE 7, FALSE>>
\* the sector (from 1) among 4 or 8, lower edges included
Sector4(v) == (Eighth(v)[1] \div 2) + 1
Sector8(v) == Eighth(v)[1] + 1
PowerOf2(k) == \E e \in 0..12 : 2 ^ e = k

\* angle in [0, 2 pi), as a number of sectors
Turns(v, k) ==
    LET a == RAtan2(v[2], v[1]) IN
    RMul(RI(k), RDiv(IF RLt(a, "0") THEN RAdd(a, RMul("2", RPi)) ELSE a, RMul("2", RPi)))
Wrap(s, k) == ((s - 1) % k) + 1
\* sectors an angle within tol sectors of v's may lie in
NearSectors(v, k, tol) ==
    LET t == Turns(v, k) IN {Wrap(RFloor(RSub(t, tol)) + 1, k), Wrap(RFloor(RAdd(t, tol)) + 1, k)}
\* The sectors a vector may be counted in.  With exact arithmetic it is the one
\* sector that contains its angle; edges that are no binary fraction of the
\* circle are subject to the rounding of the edge.
PossibleExact(v, k) ==
    LET e == Eighth(v) IN
    IF e[2] /\ ((k * e[1]) % 8 # 0 \/ e[1] = 0 \/ PowerOf2(k)) THEN {((k * e[1]) \div 8) + 1}
    ELSE IF k = 8 THEN {Sector8(v)}
    ELSE IF k = 4 THEN {Sector4(v)}
    ELSE NearSectors(v, k, "1/1000000000")
Length2(v) == RAdd(RSq(v[1]), RSq(v[2]))
PossibleRounded(v, k, scale) ==
    IF RLt(Length2(v), RMul("1/10000000000", RSq(scale))) THEN 1..k
    ELSE NearSectors(v, k, "1/10000")
ScaleOf(y, L) == FoldLeft(RMax, "1", [q \in 1..(2 * Len(y)) |->
                    LET r == IF q <= Len(y) THEN y[q] ELSE L[q - Len(y)] IN FoldLeft(LAMBDA m, v : RMax(m, RAbs(v)), "0", r)])
Possible(v, k, exact, scale) == IF exact THEN PossibleExact(v, k) ELSE PossibleRounded(v, k, scale)
\* counts that are those of some choice of possible sectors
CountsFit(counts, poss, k) ==
    /\ Len(counts) = k /\ SumInt(counts) = Len(poss)
    /\ \A s \in 1..k :
         /\ counts[s] >= Cardinality({u \in 1..Len(poss) : poss[u] = {s}})
         /\ counts[s] <= Cardinality({u \in 1..Len(poss) : s \in poss[u]})
CountsOf(vs, k, Sector(_)) == [s \in 1..k |-> Cardinality({u \in 1..Len(vs) : Sector(vs[u]) = s})]

SameAngle(a, b, tol) ==
    \E t \in {"-1", "0", "1"} : RClose(a, RAdd(b, RMul(t, RMul("2", RPi))), "0", tol)
EqualPanel(A, y, tol(_, _)) ==
    /\ IsShape(A, <<Len(y), Len(y[1])>>) /\ \A u \in 1..Len(y), s \in 1..Len(y[1]) : tol(At2(A, u, s), y[u][s])

\* do recorded lengths and angles describe the vectors?
LengthsFit(A, vs, scale) ==
    IsShape(A, <<Len(vs)>>) /\ \A u \in 1..Len(vs) : RClose(A.d[u], RSqrt(Length2(vs[u])), Tol, RMul(Tol, scale))
AnglesFit(A, vs, exact, scale) ==
    /\ IsShape(A, <<Len(vs)>>)
    /\ \A u \in 1..Len(vs) :
          /\ RLeq(RAbs(A.d[u]), RAdd(RPi, Tol))
          /\ IF exact THEN SameAngle(A.d[u], RAtan2(vs[u][2], vs[u][1]), Tol)
             ELSE \/ RLt(Length2(vs[u]), RMul("1/10000000000", RSq(scale)))
                  \/ SameAngle(A.d[u], RAtan2(vs[u][2], vs[u][1]), "1/1000000")
JudgeObserved(in, out) ==
    LET n == Len(in.y)
        L == TLCEval(LagPanel(in.w, in.y))
        vs == TLCEval(VectorsOf(in.y, L))
        scale == ScaleOf(in.y, L)
        near(a, b) == RClose(a, b, Tol, RMul(Tiny, scale))
        poss == TLCEval([u \in 1..n |-> Possible(vs[u], in.k, in.exact, scale)])
    IN  Chk(EqualPanel(out.Y, in.y, REq), "data-kept")
        \cup Chk(EqualPanel(out.lag, L, near) /\ EqualPanel(out.wY, L, near), "spatial-lags")
        \cup Chk(IsShape(out.cuts, <<in.k + 1>>) /\ \A s \in 0..in.k : Near(out.cuts.d[s + 1], RMul("2", RMul(RPi, RN(s, in.k))))
                 /\ Near(out.width, RMul("2", RMul(RPi, RN(1, in.k)))), "equal-sectors")
        \cup Chk(out.bins = out.cuts, "bins")
        \cup Chk(LengthsFit(out.r, vs, scale), "lengths")
        \cup Chk(AnglesFit(out.theta, vs, in.exact, scale), "angles")
        \cup Chk(IsShape(out.counts, <<in.k>>) /\ CountsFit(out.counts.d, poss, in.k), "counts")
JudgeRose(in, out) == IF Raised(out) THEN {"raised"} ELSE JudgeObserved(in, out)

\* ---- permutation inference ----
\* sectors in which the unit and its lag move in the same direction
SameDirection(k, s) == IF k = 4 THEN s \in {1, 3} ELSE s \in {1, 2, 5, 6}
TwoSided(P) == IF RLt(P, "1/2") THEN RMul("2", P) ELSE RMul("2", RSub("1", P))
RoseP(alt, k, s, up, down) ==
    CASE alt = "two" -> TwoSided(up)
      [] alt = "positive" -> IF SameDirection(k, s) THEN up ELSE down
      [] alt = "negative" -> IF SameDirection(k, s) THEN down ELSE up
\* counts of all equally likely assignments of the trajectories to the units
RoseCases(in) ==
    LET ps == SetToSeq(Permutations1(Len(in.y)))
        sect(v) == IF in.k = 4 THEN Sector4(v) ELSE Sector8(v)
    IN  TLCEval([q \in 1..Len(ps) |-> LET c == CountsOf(Vectors(Permuted(in.y, ps[q]), in.w), in.k, sect)
                                      IN  [s \in 1..in.k |-> RI(c[s])]])
Simulated(A) == [m \in 1..A.sh[1] |-> Row(A, m)]
JudgeCall(in, call, got, counts) ==
    LET k == in.k
        R == call.R
    IN  ChkThen(IsShape(got.perm, <<R, k>>) /\ IsShape(got.larger, <<k>>) /\ IsShape(got.smaller, <<k>>) /\ IsShape(got.expected, <<k>>), "shape",
            Chk(\A m \in 1..R : RSum(Row(got.perm, m)) = RI(Len(in.y)) /\ \A s \in 1..k : RIsInt(At2(got.perm, m, s)) /\ RLeq("0", At2(got.perm, m, s)), "every-unit-counted")
            \cup Chk(\A s \in 1..k : /\ got.larger.d[s] = RI(AtLeast(Col(got.perm, s), counts[s]))
                                     /\ got.smaller.d[s] = RI(AtMost(Col(got.perm, s), counts[s]))
                                     /\ Near(got.expected.d[s], MeanOf(Col(got.perm, s))), "tallies")
            \cup Chk(got.alternative = call.name, "alternative-recorded")
            \cup IF call.alt = "unknown" THEN Chk(got.p = got.before, "unknown-alternative")
                 ELSE ChkThen(~Raised(got.p) /\ IsShape(got.p, <<k>>), "no-p-values",
                        Chk(\A s \in 1..k : Near(got.p.d[s], RoseP(call.alt, k, s,
                                RN(AtLeast(Col(got.perm, s), counts[s]) + 1, R + 1), RN(AtMost(Col(got.perm, s), counts[s]) + 1, R + 1))), "p-values")))
JudgePermute(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET counts == [s \in 1..in.k |-> RI(out.observed.counts.d[s])]
             all == FlattenSeq([c \in 1..Len(in.calls) |-> Simulated(out.calls[c].perm)])
         IN  JudgeObserved(in, out.observed)
             \cup Chk(out.after = out.observed, "observed-unchanged")
             \cup ChkThen(Len(out.calls) = Len(in.calls), "calls",
                    UNION {JudgeCall(in, in.calls[c], out.calls[c], counts) : c \in 1..Len(in.calls)}
                    \cup IF ~in.enum THEN {}
                         ELSE LET cases == RoseCases(in) IN
                              ChkThen(AllAttainableV(cases, all), "attainable", Chk(FairDrawsV(cases, all), "equally-likely")))
=============================================================================
