-------------------------------- MODULE Plots --------------------------------
(* What the plots show, as data read back from the figures.                  *)
EXTENDS Rose

\* ---- significance classes of local Moran statistics ----
Classes5 == <<"ns", "HH", "LH", "LL", "HL">>
\* q: quadrants 1..4 (HH, LH, LL, HL); ps: pseudo p-values; level: threshold
ClassOf(q, p, level) == IF RLt(p, level) THEN q ELSE 0
ClassesOf(qs, ps, level) == [u \in 1..Len(qs) |-> ClassOf(qs[u], ps[u], level)]
\* units of class a at the start and b at the end
Count(c1, c2, a, b) == Cardinality({u \in 1..Len(c1) : c1[u] = a /\ c2[u] = b})

\* cells: sequence of [start, end (labels), hidden, value, text]
JudgeCells(cells, labels, c1, c2, hideDiagonal, annotated) ==
    LET at(a, b) == SelectSeq(cells, LAMBDA c : c.start = labels[a + 1] /\ c.end = labels[b + 1])
    IN  ChkThen(Len(cells) = 25 /\ \A a, b \in 0..4 : Len(at(a, b)) = 1, "labels",
          Chk(\A a, b \in 0..4 : at(a, b)[1].hidden = (hideDiagonal /\ a = b), "hidden-cells")
          \cup Chk(\A a, b \in 0..4 : ~at(a, b)[1].hidden => REq(at(a, b)[1].value, RI(Count(c1, c2, a, b))), "counts")
          \cup Chk(\A a, b \in 0..4 : IF annotated /\ ~at(a, b)[1].hidden THEN at(a, b)[1].text = RI(Count(c1, c2, a, b)) ELSE at(a, b)[1].text = "", "annotations"))
\* m: local Moran statistics of the start and the end
JudgeHeatmap(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET c1 == ClassesOf(out.start.q, out.start.p, out.level)
             c2 == ClassesOf(out.end.q, out.end.p, out.level)
         IN  JudgeCells(out.cells, in.labels, c1, c2, in.hide, in.annot)
\* ---- general: the axes used, the settings left behind ----
JudgeFrame(in, out) ==
    IF Raised(out) THEN {}
    ELSE Chk(out.frame.given => out.frame.same, "given-axes")
         \cup Chk(out.frame.figure, "figure-of-axes")
         \cup Chk(out.frame.style = <<>>, "style-restored")
JudgeFailure(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE Chk(out.style = <<>>, "style-restored") \cup (IF in.must = "" THEN {} ELSE Chk(out.error = in.must, "rejected"))

\* ---- rose and vectors ----
JudgeScatter(in, out) ==
    LET L == TLCEval(LagPanel(in.w, in.y))
        vs == TLCEval(VectorsOf(in.y, L))
        scale == ScaleOf(in.y, L)
    IN  Chk(out.projection = "polar", "polar")
        \cup Chk(LengthsFit(out.r, vs, scale), "lengths")
        \cup Chk(AnglesFit(out.theta, vs, in.exact, scale), "angles")
        \cup Chk(IF Len(in.attribute) = 0 THEN Len(out.colors.d) = 0 ELSE out.colors.d = in.attribute, "colours")
JudgeRosePlot(in, out) == IF Raised(out) THEN {"raised"} ELSE JudgeScatter(in, out) \cup JudgeFrame(in, out)

\* lines: sequence of <<x0, y0, x1, y1>> of each unit in order
SegmentNear(s, t, scale) == Len(s) = 4 /\ \A c \in 1..4 : RClose(s[c], t[c], Tol, RMul(Tol, scale))
JudgeVectors(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET L == TLCEval(LagPanel(in.w, in.y))
             T == Len(in.y[1])
             n == Len(in.y)
             scale == ScaleOf(in.y, L)
             want == TLCEval([u \in 1..n |-> <<in.y[u][1], L[u][1], in.y[u][T], L[u][T]>>])
         IN  Chk(Len(out.lines) = n /\ \A u \in 1..n : SegmentNear(out.lines[u], want[u], scale), "vectors")
             \cup Chk(IF in.arrows THEN Len(out.arrows) = n /\ \A u \in 1..n : SegmentNear(out.arrows[u], want[u], scale) ELSE out.arrows = <<>>, "arrows")
             \cup JudgeFrame(in, out)
JudgeOrigin(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET L == TLCEval(LagPanel(in.w, in.y))
             vs == TLCEval(VectorsOf(in.y, L))
             scale == ScaleOf(in.y, L)
         IN  Chk(Len(out.lines) = Len(vs) /\ \A u \in 1..Len(vs) : SegmentNear(out.lines[u], <<"0", "0", vs[u][1], vs[u][2]>>, scale), "vectors")
             \cup JudgeFrame(in, out)
\* ---- composite: heatmap, maps of the classes at the start and the end, rose ----
SamePartition(a, b) == \A u, v \in 1..Len(a) : (a[u] = a[v]) <=> (b[u] = b[v])
JudgeComposite(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET c1 == ClassesOf(out.start.q, out.start.p, out.level)
             c2 == ClassesOf(out.end.q, out.end.p, out.level)
         IN  JudgeCells(out.cells, Classes5, c1, c2, TRUE, TRUE)
             \* one colour for each class, the same in both maps
             \cup ChkThen(Len(out.map1) = Len(c1) /\ Len(out.map2) = Len(c2), "maps-complete",
                    Chk(SamePartition(c1 \o c2, out.map1 \o out.map2), "map-colours"))
             \cup JudgeScatter(in, out)
             \cup Chk(out.frame.style = <<>>, "style-restored")
\* ---- the composite of two columns of a table, picked interactively ----
JudgeExplore(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE JudgeComposite(in, out)
         \cup Chk(\A q \in 1..2 : Range(out.offered[q]) = Range(in.columns), "columns-on-offer")
         \cup Chk(\A q \in 1..2 : RClose(out.size[q], out.wanted[q], Tol, "0"), "figure-size")
=============================================================================
