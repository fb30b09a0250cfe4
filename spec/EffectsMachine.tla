--------------------------- MODULE EffectsMachine ---------------------------
(* All sessions of seeding and running operations.                           *)
EXTENDS Effects, Json
CONSTANTS Ops, Seeds, Depth, Echo
AllOps == Operations \ {"composite"}   \* slow: run apart
VARIABLES st, hist, log
vars == <<st, hist, log>>
Init == st = Start /\ hist = <<>> /\ log = <<>>
Actions == {Seed(s) : s \in Seeds} \cup {Run(w) : w \in Ops} \cup {Freeze}
Do(a) == /\ st' = After(st, a)
         /\ hist' = Append(hist, a)
         /\ log' = Append(log, Result(st, a))
\* with Echo, the second half repeats the first
Next == /\ Len(hist) < Depth
        /\ \E a \in Actions :
             /\ hist = <<>> => a.op = "seed"
             /\ (Echo /\ Len(hist) >= Depth \div 2) => a = hist[Len(hist) + 1 - Depth \div 2]
             /\ Do(a)
Spec == Init /\ [][Next]_vars

AllActions == \A a \in Actions : IsAction(a)
\* the generator is where the last seed and the drawing operations since lead
LastSeed == MaxInt({i \in 1..Len(hist) : hist[i].op = "seed"})
DrawnSince == SelectSeq(SubSeq(hist, LastSeed + 1, Len(hist)), LAMBDA a : a.what \in Drawing)
Path == FoldLeft(LAMBDA g, a : g \o "/" \o a.what, hist[LastSeed].what, DrawnSince)
Shuffles == \E i \in 1..Len(hist) : hist[i].what = "shuffle"
GeneratorIsPath == (hist # <<>> /\ ~Shuffles) => st.gen = Path
\* results of steady operations are the same at any time
SteadyRepeat == \A i, j \in 1..Len(hist) : (hist[i] = hist[j] /\ hist[i].op = "run" /\ hist[i].what \in Steady) => log[i] = log[j]
\* the same steps after the same seed give the same results, whatever else is run in between
Replayable ==
    \A i, j \in 1..Len(hist) :
        (i < j /\ hist[i].op = "seed" /\ hist[i] = hist[j] /\ ~Shuffles) =>
            \A d \in 1..(Len(hist) - j) :
                (/\ i + d < j
                 /\ \A e \in 1..d : hist[i + e] = hist[j + e]) => log[i + d] = log[j + d]
\* without a shuffle the id list is as given
IdsKept == ~Shuffles => st.ids = ""
\* steady operations leave everything as it was
SteadyQuiet == [][hist' # hist => LET a == Last(hist') IN (a.op = "run" /\ a.what \in Steady) => st' = st]_vars
Export == Len(hist) = Depth => PrintT("CASE " \o ToJson(hist))
=============================================================================
