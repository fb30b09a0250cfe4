------------------------------ MODULE Session ------------------------------
(* Sessions of a user with the library: objects are built from shared data    *)
(* and weights, their attributes read and methods called in any order.        *)
EXTENDS Base, TLC

Kinds == {"markov", "fullrank", "georank", "spatial", "spatialp", "spatiald", "lisa", "lisap", "rose", "homogeneity"}
ChainAttrs == {"k", "classes", "transitions", "p", "num_cclasses", "num_rclasses", "cclasses_indices", "rclasses_indices",
               "tclasses_indices", "astates_indices", "steady_state", "mfpt", "sojourn_time"}
SpatialAttrs == {"k", "m", "cutoffs", "lag_cutoffs", "class_ids", "lclass_ids", "transitions", "p", "T", "P", "s", "S", "f", "F",
                 "Q", "Q_p_value", "LR", "LR_p_value", "dof_hom", "shtest", "chi2", "x2", "x2_pvalue", "x2_dof"}
PermAttrs == {"counts_perm", "expected_perm", "larger_perm", "smaller_perm", "p", "alternative"}
Attrs(kind) ==
    CASE kind = "markov" -> ChainAttrs
      [] kind \in {"fullrank", "georank"} -> {"k", "transitions", "p", "classes", "steady_state", "mfpt", "sojourn_time", "num_rclasses"}
      [] kind = "spatial" -> SpatialAttrs
      [] kind = "spatiald" -> SpatialAttrs \ {"cutoffs", "lag_cutoffs"}
      [] kind = "spatialp" -> SpatialAttrs \cup {"x2_realizations", "x2_rpvalue"}
      [] kind = "lisa" -> {"k", "classes", "transitions", "p", "q", "move_types", "expected_t", "chi_2", "steady_state", "mfpt", "sojourn_time"}
      [] kind = "lisap" -> {"transitions", "p", "q", "move_types", "expected_t", "chi_2", "significant_moves", "p_values", "significance_level", "mfpt"}
      [] kind = "rose" -> {"Y", "wY", "lag", "k", "cuts", "bins", "counts", "theta", "r"} \cup PermAttrs
      [] kind = "homogeneity" -> {"Q", "LR", "dof", "Q_p_value", "LR_p_value", "p_h0", "p_h1", "LR_table", "Q_table", "k", "m"}
\* further attributes, of no interest to the design model of the caches
MoreAttrs(kind) ==
    CASE kind \in {"markov", "fullrank", "georank"} -> {"num_tclasses", "num_astates", "num_cclasses", "rclasses_indices", "astates_indices"}
      [] kind \in {"spatial", "spatialp"} -> {"ht", "classes", "lclasses", "fixed", "discrete", "variable_name"}
      [] kind = "spatiald" -> {"ht", "classes", "discrete", "variable_name"}
      [] kind \in {"lisa", "lisap"} -> {"significance_level", "permutations", "num_cclasses", "rclasses_indices", "num_astates", "classes"}
      [] kind = "rose" -> {"sw"}
      [] kind = "homogeneity" -> {"A", "A_im", "B", "b_i", "t_total", "title", "regime_names", "class_names"}
\* methods whose results, or printed text, are those of a fresh object as well
Methods(kind) ==
    CASE kind \in {"spatial", "spatialp"} -> {"summary"}
      [] kind = "homogeneity" -> {"summary"}
      [] kind = "lisa" -> {"spillover"}
      [] kind = "lisap" -> {"spillover", "spillover_on", "spillover_3"}
      [] kind = "rose" -> {"plot", "plot_attribute", "plot_vectors", "plot_origin", "heatmap"}
      [] OTHER -> {}
\* other analyses of the same data and weights, without an object to keep
Others == {"spatialtau", "tau_ln", "tau_lnhood", "tau_reg", "theta", "moran", "sequence", "lag"}
Alternatives == {"two-sided", "positive", "negative", "nonsense"}

\* ---- actions: records with a field op ----
New(kind) == [op |-> "new", kind |-> kind]
Read(o, a) == [op |-> "read", obj |-> o, attr |-> a]
Call(o, m) == [op |-> "call", obj |-> o, meth |-> m]
Permute(o, R, alt) == [op |-> "permute", obj |-> o, R |-> R, alt |-> alt]
Other(f) == [op |-> "other", what |-> f]

\* ---- what the session knows of an object ----
\* epoch: permute calls so far; pepoch: those with a known alternative; R, alt:
\* of the last call; seen: the values read since they last may have changed
Fresh(kind) == [kind |-> kind, epoch |-> 0, pepoch |-> 0, R |-> 0, alt |-> "", seen |-> <<>>]
Enabled1(objs, a) ==
    CASE a.op = "new" -> a.kind \in Kinds
      [] a.op = "read" -> a.obj \in 1..Len(objs) /\ a.attr \in Attrs(objs[a.obj].kind) \cup MoreAttrs(objs[a.obj].kind)
      [] a.op = "call" -> a.obj \in 1..Len(objs) /\ a.meth \in Methods(objs[a.obj].kind)
      [] a.op = "permute" -> a.obj \in 1..Len(objs) /\ objs[a.obj].kind = "rose"
      [] a.op = "other" -> a.what \in Others
\* do permutations determine the attribute now?
Drawn(obj, attr) == obj.kind = "rose" /\ attr \in PermAttrs /\ (IF attr = "p" THEN obj.pepoch ELSE obj.epoch) > 0
Recall(obj, attr) == SelectSeq(obj.seen, LAMBDA s : s[1] = attr)
Forget(seen, attrs) == SelectSeq(seen, LAMBDA s : s[1] \notin attrs)
After(objs, a, tok) ==
    CASE a.op = "new" -> Append(objs, Fresh(a.kind))
      [] a.op = "read" ->
            IF Drawn(objs[a.obj], a.attr) /\ Recall(objs[a.obj], a.attr) = <<>>
            THEN [objs EXCEPT ![a.obj].seen = Append(@, <<a.attr, tok>>)] ELSE objs
      [] a.op = "permute" ->
            LET known == a.alt # "nonsense" IN
            [objs EXCEPT ![a.obj] = [@ EXCEPT !.epoch = @ + 1, !.pepoch = IF known THEN @ + 1 ELSE @, !.R = a.R, !.alt = a.alt,
                                              !.seen = Forget(@, IF known THEN PermAttrs ELSE PermAttrs \ {"p"})]]
      [] OTHER -> objs
\* the failures of an observation: tok, the value got; fresh, the value on a
\* fresh object; rows, the number of permutations it describes (-1: not said)
Faults(objs, a, obs) ==
    CASE a.op = "new" -> Chk(obs.tok = obs.fresh, "construction-" \o a.kind)
      [] a.op = "read" ->
            LET o == objs[a.obj] IN
            IF Drawn(o, a.attr)
            THEN Chk(Recall(o, a.attr) = <<>> \/ obs.tok = Recall(o, a.attr)[1][2], "repeated-read-" \o o.kind \o "-" \o a.attr)
                 \cup Chk(obs.rows = -1 \/ obs.rows = o.R, "describes-last-call-" \o a.attr)
                 \cup Chk(a.attr # "alternative" \/ obs.text = o.alt, "describes-last-call-alternative")
            ELSE Chk(obs.tok = obs.fresh, "as-on-fresh-object-" \o o.kind \o "-" \o a.attr)
      [] a.op = "call" -> Chk(obs.tok = obs.fresh, "as-on-fresh-object-" \o objs[a.obj].kind \o "-" \o a.meth)
      [] a.op = "other" -> Chk(obs.tok = obs.fresh, "other-" \o a.what)
      [] a.op = "permute" -> {}

\* ---- judging a recorded session ----
Played(in, out) ==
    LET step(st, i) ==
            IF ~Enabled1(st.objs, in.steps[i]) THEN [st EXCEPT !.bad = @ \cup {"not-a-behaviour"}]
            ELSE [objs |-> After(st.objs, in.steps[i], out.steps[i].tok),
                  bad |-> st.bad \cup Faults(st.objs, in.steps[i], out.steps[i])]
    IN  FoldLeft(step, [objs |-> <<>>, bad |-> {}], [i \in 1..Len(in.steps) |-> i])
ObjectsAfter(in, out) == Played(in, out).objs
JudgeSession(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE IF Len(out.steps) # Len(in.steps) THEN {"incomplete"}
    ELSE Played(in, out).bad
=============================================================================
