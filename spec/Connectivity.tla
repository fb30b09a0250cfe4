---------------------------- MODULE Connectivity ----------------------------
(* Contiguity after the removal of a unit, and components of weighted graphs. *)
EXTENDS Partition

\* nb[u]: sequence of neighbours; the links between units of V
LinksWithin(nb, V) == {{u, v} : u \in V, v \in V} \cap UNION {{{u, nb[u][q]} : q \in 1..Len(nb[u])} : u \in V}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
StaysConnected(nb, ids, leaver) ==
    LET V == Range(Without(ids, leaver)) IN Connected(V, LinksWithin(nb, V))

JudgeContiguity(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE Chk(out.answer = StaysConnected(in.nb, in.ids, in.leaver), "contiguity")
         \cup Chk(out.ids = in.ids, "list-unchanged")

\* ---- weighted graphs, built by adding links one after the other ----
\* adds: sequence of <<a, b, w>>; the last weight given to a pair counts
NodesOf(adds) == UNION {{adds[q][1], adds[q][2]} : q \in 1..Len(adds)}
LastOf(adds) == {q \in 1..Len(adds) : \A r \in (q + 1)..Len(adds) : {adds[r][1], adds[r][2]} # {adds[q][1], adds[q][2]}}
Satisfies(op, w, th) ==
    CASE op = "lt" -> RLt(w, th) [] op = "le" -> RLeq(w, th)
      [] op = "gt" -> RLt(th, w) [] op = "ge" -> RLeq(th, w)
StrongLinks(adds, op, th) == {{adds[q][1], adds[q][2]} : q \in {r \in LastOf(adds) : Satisfies(op, adds[r][3], th)}}
GraphComponents(adds, op, th) == Components(NodesOf(adds), StrongLinks(adds, op, th))
\* edges of a component, as triples in both directions
EdgesIn(adds, c) == UNION {{<<adds[q][1], adds[q][2], adds[q][3]>>, <<adds[q][2], adds[q][1], adds[q][3]>>} :
                            q \in {r \in LastOf(adds) : {adds[r][1], adds[r][2]} \subseteq c}}

JudgeGraph(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET C == GraphComponents(in.adds, in.cmp, in.threshold)
             got == {Range(out.components[q].nodes) : q \in 1..Len(out.components)}
         IN  Chk(got = C /\ Len(out.components) = Cardinality(C), "components")
             \cup Chk(\A q \in 1..Len(out.components) :
                        LET c == out.components[q]
                        IN  Range(c.edges) = EdgesIn(in.adds, Range(c.nodes)), "edges")

\* ---- a graph that is asked while links are added ----
\* what has been added by the q-th step, and the questions asked
AddedBy(steps, q) == LET a == SelectSeq(SubSeq(steps, 1, q), LAMBDA s : s.op = "add") IN [i \in 1..Len(a) |-> a[i].link]
Questions(steps) == SelectSeq([q \in 1..Len(steps) |-> q], LAMBDA q : steps[q].op = "ask")
\* links of the graph: both ways, or the way they were added
DirectedEdges(adds) == {<<adds[q][1], adds[q][2], adds[q][3]>> : q \in {r \in 1..Len(adds) : \A s \in (r + 1)..Len(adds) : <<adds[s][1], adds[s][2]>> # <<adds[r][1], adds[r][2]>>}}
GraphIs(g, adds, undirected) ==
    /\ Range(g.nodes) = NodesOf(adds)
    /\ Range(g.edges) = IF undirected THEN EdgesIn(adds, NodesOf(adds)) ELSE DirectedEdges(adds)
ComponentsAre(cs, V, adds, q) ==
    /\ {Range(cs[i].nodes) : i \in 1..Len(cs)} = Components(V, {e \in StrongLinks(adds, q.cmp, q.threshold) : e \subseteq V})
    /\ \A i, j \in 1..Len(cs) : i # j => Range(cs[i].nodes) # Range(cs[j].nodes)
    /\ \A i \in 1..Len(cs) : Range(cs[i].edges) = EdgesIn(adds, Range(cs[i].nodes))
JudgeAnswer(in, at, a) ==
    LET adds == TLCEval(AddedBy(in.steps, at))
        q == in.steps[at]
    IN  Chk(GraphIs(a.graph, adds, in.undirected), "graph-kept")
        \cup Chk(a.none = ~in.undirected, "directed-graphs-have-none")
        \cup (IF ~in.undirected THEN {} ELSE
              Chk(ComponentsAre(a.components, NodesOf(adds), adds, q), "components")
              \cup Chk(Len(a.within) = Len(a.components)
                       /\ \A i \in 1..Len(a.within) : ComponentsAre(a.within[i], Range(a.components[i].nodes), adds, q.within), "components-within-a-component"))
JudgeGraphs(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET qs == Questions(in.steps)
         IN  ChkThen(Len(out.answers) = Len(qs), "answers", UNION {JudgeAnswer(in, qs[i], out.answers[i]) : i \in 1..Len(qs)})
JudgeIsComponent(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET V == Range(in.ids) IN Chk(out.answer = Connected(V, LinksWithin(in.nb, V)), "contiguity")

\* a path 1 - 2 - ... - n whose links at the given places are weak
JudgePath(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE LET b == <<0>> \o in.breaks \o <<in.n>>
             runs == {<<b[q] + 1, b[q + 1]>> : q \in 1..(Len(b) - 1)}
         IN  Chk(Range(out.runs) = runs /\ Len(out.runs) = Len(b) - 1, "components-of-a-long-path")
=============================================================================
