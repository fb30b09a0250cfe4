------------------------------- MODULE Draws -------------------------------
(* Permutation inference: a statistic is computed for equally likely          *)
(* reassignments of the data and compared with the observed one.              *)
EXTENDS Base, TLC

Permutations1(n) == {p \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => p[a] # p[b]}
Permuted(y, p) == [u \in 1..Len(y) |-> y[p[u]]]
\* permutations of the units that leave unit i where it is
Keeping(n, i) == {p \in Permutations1(n) : p[i] = i}

\* ---- the documented proportions, for simulated values sims and an observed one
AtLeast(sims, obs) == Cardinality({r \in 1..Len(sims) : RLeq(obs, sims[r])})
AtMost(sims, obs) == Cardinality({r \in 1..Len(sims) : RLeq(sims[r], obs)})
Above(sims, obs) == Cardinality({r \in 1..Len(sims) : RLt(obs, sims[r])})
UpperP(sims, obs) == RN(AtLeast(sims, obs) + 1, Len(sims) + 1)
\* folded: of the other tail when above one half
FoldedP(sims, obs) ==
    LET p == UpperP(sims, obs)
    IN  IF RLt("1/2", p) THEN RN(Len(sims) - AtLeast(sims, obs) + 1, Len(sims) + 1) ELSE p
SmallerTailP(sims, obs) ==
    RN(1 + (IF AtLeast(sims, obs) < AtMost(sims, obs) THEN AtLeast(sims, obs) ELSE AtMost(sims, obs)), Len(sims) + 1)
\* the observed value is the first of all
LeftShare(all) == RN(AtMost(all, all[1]), Len(all))
RightShare(all) == RN(Above(all, all[1]), Len(all))
MeanOf(s) == RDiv(RSum(s), RI(Len(s)))
StdOf(s) == LET m == MeanOf(s) IN RSqrt(MeanOf([i \in 1..Len(s) |-> RSq(RSub(s[i], m))]))

\* ---- were the simulated values drawn fairly?  cases: the values (sequences
\* of numbers) of the equally likely reassignments; seen: the values drawn.
SameVec(a, b) == Len(a) = Len(b) /\ \A q \in 1..Len(a) : Near(a[q], b[q])
AllAttainableV(cases, seen) ==
    LET vals == Range(cases)
    IN  \A v \in Range(seen) : \E c \in vals : SameVec(v, c)
FairDrawsV(cases, seen) ==
    LET N == Len(cases)
        R == Len(seen)
        vals == TLCEval(SetToSeq(Range(cases)))
        \* how often each value occurs: number each case and draw by value
        num(v) == CHOOSE w \in 1..Len(vals) : SameVec(v, vals[w])
        nc == TLCEval([q \in 1..N |-> num(cases[q])])
        ns == TLCEval([r \in 1..R |-> num(seen[r])])
        mult == TLCEval([w \in 1..Len(vals) |-> Cardinality({q \in 1..N : nc[q] = w})])
        \* probability that two independent draws agree, and that three do
        q2 == RSum([w \in 1..Len(vals) |-> RSq(RN(mult[w], N))])
        q3 == RSum([w \in 1..Len(vals) |-> RMul(RN(mult[w], N), RSq(RN(mult[w], N)))])
        agree == Cardinality({r \in 1..(R - 1) : ns[r] = ns[r + 1]})
        var == RAdd(RMul(RI(R - 1), RMul(q2, RSub("1", q2))), RMul(RI(2 * R), RSub(q3, RSq(q2))))
    IN  /\ \A w \in 1..Len(vals) : FairHits(Cardinality({r \in 1..R : ns[r] = w}), mult[w], N, R)
        \* consecutive draws agree no more or less often than independent ones
        /\ R > 1 => RLeq(RSq(RSub(RI(agree), RMul(RI(R - 1), q2))), RAdd(RMul("49", var), "49"))
AsVecs(s) == [i \in 1..Len(s) |-> <<s[i]>>]
AllAttainable(cases, seen) == AllAttainableV(AsVecs(cases), AsVecs(seen))
FairDraws(cases, seen) == FairDrawsV(AsVecs(cases), AsVecs(seen))
=============================================================================
