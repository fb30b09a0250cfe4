----------------------------- MODULE TauMachine -----------------------------
(* Counting concordant pairs with a binary tree (Christensen 2005): the       *)
(* observations, sorted by x then y, are inserted into a search tree on y one *)
(* step of the descent at a time; each insertion adds the pairs it forms with *)
(* the observations before it.                                               *)
EXTENDS Tau, Json
CONSTANTS N, Vals
VARIABLES x, y, ord, i, root, before, equal, li, ri, ld, neq, dcnt, ecnt, con, dis, ex, ey
vars == <<x, y, ord, i, root, before, equal, li, ri, ld, neq, dcnt, ecnt, con, dis, ex, ey>>

Lex(a, b) == x[a] < x[b] \/ (x[a] = x[b] /\ y[a] < y[b]) \/ (x[a] = x[b] /\ y[a] = y[b] /\ a < b)
Idx == [a \in 1..N |-> a]
Zero == [a \in 1..N |-> 0]
Init ==
    /\ x \in [1..N -> Vals] /\ y \in [1..N -> Vals]
    /\ ord = <<>> /\ i = 0 /\ root = 0 /\ before = 0 /\ equal = 0
    /\ li = Zero /\ ri = Zero /\ ld = Zero /\ neq = Zero
    /\ dcnt = 0 /\ ecnt = 1 /\ con = 0 /\ dis = 0 /\ ex = 0 /\ ey = 0
Sort ==
    /\ i = 0 /\ ord' = SortSeq(Idx, Lex) /\ i' = 1
    /\ UNCHANGED <<x, y, root, before, equal, li, ri, ld, neq, dcnt, ecnt, con, dis, ex, ey>>
\* take the next observation: ties with the one before it
Begin ==
    /\ i \in 1..(N - 1) /\ root = 0
    /\ LET a == ord[i]
           b == ord[i + 1]
       IN  IF x[a] # x[b] THEN dcnt' = 0 /\ ecnt' = 1
           ELSE IF y[a] = y[b] THEN dcnt' = dcnt /\ ecnt' = ecnt + 1
           ELSE dcnt' = dcnt + ecnt /\ ecnt' = 1
    /\ i' = i + 1 /\ root' = 1 /\ before' = 0 /\ equal' = 1
    /\ UNCHANGED <<x, y, ord, li, ri, ld, neq, con, dis, ex, ey>>
Finish(nb, ne) ==
    /\ con' = con + (nb - dcnt)
    /\ ex' = ex + (ne - ecnt)
    /\ ey' = ey + dcnt
    /\ dis' = dis + (i - 1) - ((nb - dcnt) + (ne - ecnt) + dcnt + (ecnt - 1))
    /\ root' = 0
Y(p) == y[ord[p]]
Descend ==
    /\ root > 0
    /\ \/ /\ Y(i) > Y(root)
          /\ LET nb == before + 1 + ld[root] + neq[root] IN
             IF ri[root] = 0
             THEN ri' = [ri EXCEPT ![root] = i] /\ Finish(nb, equal) /\ UNCHANGED <<before, equal>>
             ELSE root' = ri[root] /\ before' = nb /\ UNCHANGED <<ri, equal, con, dis, ex, ey>>
          /\ UNCHANGED <<li, ld, neq>>
       \/ /\ Y(i) < Y(root)
          /\ ld' = [ld EXCEPT ![root] = @ + 1]
          /\ IF li[root] = 0
             THEN li' = [li EXCEPT ![root] = i] /\ Finish(before, equal) /\ UNCHANGED <<before, equal>>
             ELSE root' = li[root] /\ UNCHANGED <<li, before, equal, con, dis, ex, ey>>
          /\ UNCHANGED <<ri, neq>>
       \/ /\ Y(i) = Y(root)
          /\ neq' = [neq EXCEPT ![root] = @ + 1]
          /\ Finish(before + ld[root], equal + neq[root] + 1)
          /\ UNCHANGED <<li, ri, ld, before, equal>>
    /\ UNCHANGED <<x, y, ord, i, dcnt, ecnt>>
Next == Sort \/ Begin \/ Descend
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Inserted == {ord[p] : p \in 1..i}
Settled == i > 0 /\ root = 0
SoFar == {p \in Pairs(N) : p[1] \in Inserted /\ p[2] \in Inserted}
CountsExact == Settled =>
    /\ con = ConcPairs(x, y, SoFar) /\ dis = DiscPairs(x, y, SoFar)
    /\ ex = ExtraX(x, y, SoFar) /\ ey = ExtraY(x, y, SoFar)
\* every pair is concordant, discordant, extra, or tied in both
PairsPartitioned == Settled =>
    con + dis + ex + ey + Cardinality({p \in SoFar : x[p[1]] = x[p[2]] /\ y[p[1]] = y[p[2]]}) = (i * (i - 1)) \div 2
TreeOrdered == Settled => \A p \in 1..i : (li[p] # 0 => Y(li[p]) < Y(p)) /\ (ri[p] # 0 => Y(ri[p]) > Y(p))
Terminates == <>(i = N /\ root = 0)
Done == i = N /\ root = 0
TauInRange == (Done /\ TauB(x, y) # "nan") => RLeq(RAbs(TauB(x, y)), "1")
TauSelf == (Done /\ x = y /\ TauB(x, y) # "nan") => TauB(x, y) = "1"
TauSymmetric == Done => TauB(x, y) = TauB(y, x)
TauReversed == Done => TauB(x, [a \in 1..N |-> -y[a]]) = RNeg(TauB(x, y)) \/ TauB(x, y) = "nan"
Export == Done => PrintT("CASE " \o ToJson([a |-> x, b |-> y]))
=============================================================================
