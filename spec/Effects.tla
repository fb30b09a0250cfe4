------------------------------- MODULE Effects -------------------------------
(* What the operations of the library do beside computing their result: which *)
(* of them draw from numpy's global generator, which inputs they may change,  *)
(* and on what their results may depend.                                      *)
EXTENDS Base, TLC

\* ---- the operations ----
\* analyses that draw permutations or break ties at random, or plot ones that do
Drawing == {"spatial_perm", "spatial_cutperm", "spatial_discrete", "spatial_discreteperm", "lisa_perm", "lisa_permspill",
            "spatialtau_perm", "tau_ln_perm", "tau_lnhood_perm", "tau_reg_perm", "theta_perm",
            "rose_perm", "rose_permpos", "rose_permodd", "shuffle", "heatmap", "heatmap_mask", "composite"}
Steady == {"markov", "markov_listed", "markov_quiet", "fullrank", "fullrank_list", "georank", "georank_list",
           "spatial", "spatial_all", "spatial_free", "spatial_cut", "spatial_summary", "held_spatial_read", "held_spatial_summary",
           "lisa", "lisa_geoda", "lisa_spill", "held_lisa_spill", "chi2", "homogeneity", "homogeneity_summary", "homogeneity_unnamed",
           "held_homogeneity_summary",
           "homogeneity_array", "homogeneity_listed", "chi2_int", "chi2_zero", "kullback_list", "held_markov_use", "held_spatial_use",
           "steady_view", "mfpt_view", "mobility_view", "sojourn_view", "fill_view", "fill_int", "markov_view", "markov_object", "spatial_view",
           "spatial_free_cut", "spatial_strided", "lisa_view", "rose_view", "tau_view", "theta_view", "spatialtau_list", "tau_listed", "theta_list",
           "graph_directed", "contiguity_leavers", "kullback", "prais", "prais_list", "sojourn", "sojourn_list", "sojourn_absorbing",
           "steady", "steady_fill", "steady_rejected", "mfpt", "mfpt_fill", "mfpt_rejected", "var_mfpt", "deprecated",
           "mobility", "mobility_ini", "tau", "tau_list", "spatialtau", "tau_local", "tau_ln", "tau_lnhood", "tau_reg", "tau_reg_list", "theta",
           "sequence_om", "sequence_ragged", "sequence_diag", "sequence_int", "sequence_free", "sequence_types", "sequence_list", "sequence_rejected",
           "rose", "rose_panel", "fill", "lower", "contiguity", "component", "graph",
           "plot_rose", "plot_attribute", "plot_axes", "plot_rejected", "plot_failing", "plot_vectors", "plot_arrows", "plot_origin"}
Operations == Drawing \cup Steady
Changes(what) == IF what = "shuffle" THEN {"ids"} ELSE {}

\* ---- the state a session leaves behind: the generator's position and the id
\* list, as terms over what has happened to them
Seed(s) == [op |-> "seed", what |-> s]
Run(w) == [op |-> "run", what |-> w]
Freeze == [op |-> "freeze", what |-> ""]  \* from now on the arrays refuse to be written
Start == [gen |-> "?", ids |-> ""]
After(st, a) ==
    CASE a.op = "seed" -> [st EXCEPT !.gen = a.what]
      [] a.op = "freeze" -> st   \* no analysis can tell
      [] a.op = "run" -> [gen |-> IF a.what \in Drawing THEN st.gen \o "/" \o a.what \o (IF a.what = "shuffle" THEN st.ids ELSE "") ELSE st.gen,
                          ids |-> IF a.what = "shuffle" THEN "[" \o st.gen \o st.ids \o "]" ELSE st.ids]
\* what the result is determined by, beside the inputs
Result(st, a) == a.what \o (IF a.what \in Drawing THEN "@" \o st.gen ELSE "") \o (IF a.what = "shuffle" THEN st.ids ELSE "")
IsAction(a) == \/ a.op = "seed" /\ a.what \in {"1", "2", "3"}
               \/ a = Freeze
               \/ a.op = "run" /\ a.what \in Operations

\* ---- judging a recorded session: equal terms, equal observations ----
Lookup(seen, term) == SelectSeq(seen, LAMBDA s : s[1] = term)
Same(seen, term, tok) == \A s \in Range(Lookup(seen, term)) : s[2] = tok
Add(seen, term, tok) == IF Lookup(seen, term) = <<>> THEN Append(seen, <<term, tok>>) ELSE seen
Step(k, a, obs) ==
    IF ~IsAction(a) THEN [k EXCEPT !.bad = @ \cup {"not-a-behaviour"}]
    ELSE LET st2 == After(k.st, a)
             res == Result(k.st, a)
         IN  [st |-> st2,
              gens |-> Add(k.gens, st2.gen, obs.gen),
              vals |-> IF a.op = "run" THEN Add(k.vals, res, obs.res) ELSE k.vals,
              bad |-> k.bad
                \cup {"changes-" \o x \o "-by-" \o a.what : x \in ToSet(obs.changed) \ (IF a.op = "run" THEN Changes(a.what) ELSE {})}
                \cup {"global-" \o x \o "-by-" \o a.what : x \in ToSet(obs.settings)}
                \cup Chk(Same(k.gens, st2.gen, obs.gen), "random-state-after-" \o a.what)
                \cup (IF a.op = "run" THEN Chk(Same(k.vals, res, obs.res), "result-of-" \o a.what) ELSE {})]
JudgeEffects(in, out) ==
    IF Raised(out) THEN {"raised"}
    ELSE IF Len(out.steps) # Len(in.steps) THEN {"incomplete"}
    ELSE FoldLeft(LAMBDA k, i : Step(k, in.steps[i], out.steps[i]),
                  [st |-> Start, gens |-> <<>>, vals |-> <<>>, bad |-> {}], [i \in 1..Len(in.steps) |-> i]).bad
=============================================================================
