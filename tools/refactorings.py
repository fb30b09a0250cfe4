"""Edits that keep the behaviour: the checks have to stay quiet on them."""
M, E_, R, S, D, U, C, P, B = ("giddy/" + f + ".py" for f in
                             "markov ergodic rank sequence directional util components plotting mobility".split())
CHAIN = "C01 C02 C11 C08 C23".split()

REFACTORINGS = [
    dict(id="counts-at", props=CHAIN, edits=[(M, """        for state_0 in js:
            state_1 = state_0 + 1
            state_0 = class_ids[:, state_0]
            state_1 = class_ids[:, state_1]
            initial = np.unique(state_0)
            for i in initial:
                ending = state_1[state_0 == i]
                uending = np.unique(ending)
                row = classIds.index(i)
                for j in uending:
                    col = classIds.index(j)
                    transitions[row, col] += sum(ending == j)
""", """        index = np.array([[classIds.index(v) for v in row] for row in class_ids.tolist()]) if t > 1 else class_ids
        for period in js:
            np.add.at(transitions, (index[:, period], index[:, period + 1]), 1)
""")]),
    dict(id="probabilities-divide", props=CHAIN, edits=[(M, """        self.p = transitions / (row_sum + (row_sum == 0))[:, np.newaxis]
""", """        safe = np.where(row_sum > 0, row_sum, 1.0)
        self.p = np.divide(transitions, safe.reshape(-1, 1))
""")]),
    dict(id="transient-loop", props=["C02", "C25"], edits=[(M, """        transient = set(map(tuple, self.cclasses_indices)).difference(
            set(map(tuple, self.rclasses_indices))
        )
        self.num_tclasses = len(transient)
        if len(transient):
            self.tclasses_indices = [np.asarray(i) for i in transient]
        else:
            self.tclasses_indices = None
""", """        recurrent = [set(r) for r in self.rclasses_indices]
        transient = [np.asarray(c) for c in self.cclasses_indices if set(c) not in recurrent]
        self.num_tclasses = len(transient)
        self.tclasses_indices = transient or None
"""), (M, """        self.astates_indices = list(np.argwhere(np.diag(p_temp) == 1))
""", """        stay = p_temp.diagonal()
        self.astates_indices = [np.array([i]) for i in range(k) if stay[i] == 1]
""")]),
    dict(id="printed-summary", props=["C25", "C22"], edits=[(M, """            if self.num_astates == 0:
                print("The Markov Chain has 0 absorbing states.")
            else:
                if self.num_astates == 1:
                    print("The Markov Chain has 1 absorbing state (index):")
                else:
                    print(
                        f"The Markov Chain has {self.num_astates} "
                        "absorbing states (indices):"
                    )
                print(*self.astates_indices, sep=", ")
""", """            number = self.num_astates
            head = {0: "0 absorbing states.", 1: "1 absorbing state (index):"}.get(
                number, "%d absorbing states (indices):" % number
            )
            print("The Markov Chain has " + head)
            if number > 0:
                print(", ".join(str(a) for a in self.astates_indices))
""")]),
    dict(id="cached-names", props=["C23", "C03", "C04", "C02", "C22"], edits=[(M, """        if not hasattr(self, "_mfpt"):
            self._mfpt = mfpt(self.p, fill_empty_classes=True)
        return self._mfpt

    @property
    def steady_state(self):
        if not hasattr(self, "_steady_state"):
            self._steady_state = steady_state(self.p, fill_empty_classes=True)
        return self._steady_state

    @property
    def sojourn_time(self):
        if not hasattr(self, "_st"):
            self._st = sojourn_time(self.p)
        return self._st
""", """        return self._cached("passage", lambda: mfpt(self.p, fill_empty_classes=True))

    @property
    def steady_state(self):
        return self._cached(
            "stationary", lambda: steady_state(self.p, fill_empty_classes=True)
        )

    @property
    def sojourn_time(self):
        return self._cached("sojourn", lambda: sojourn_time(self.p))

    def _cached(self, name, compute):
        values = self.__dict__.setdefault("_lazy", {})
        if name not in values:
            values[name] = compute()
        return values[name]
""")]),
    dict(id="spatial-counts-at", props=["C05", "C06", "C23"], edits=[(M, """        for t1 in range(t - 1):
            t2 = t1 + 1
            for i in range(n):
                T[
                    self.lclass_ids[i, t1], self.class_ids[i, t1], self.class_ids[i, t2]
                ] += 1

        P = np.zeros_like(T)
        for i, mat in enumerate(T):
            row_sum = mat.sum(axis=1)
            row_sum = row_sum + (row_sum == 0)
            P[i] = mat / row_sum[:, np.newaxis]
""", """        start = np.asarray(self.class_ids)[:, :-1]
        end = np.asarray(self.class_ids)[:, 1:]
        np.add.at(T, (np.asarray(self.lclass_ids)[:, :-1], start, end), 1)

        totals = T.sum(axis=2, keepdims=True)
        P = T / np.where(totals == 0, 1, totals)
""")]),
    dict(id="spatial-permutations", props=["C06", "C22", "C23"], edits=[(M, """            nrp = np.random.permutation
            counter = 0
            x2_realizations = np.zeros((permutations, 1))
            lclass_ids = self.lclass_ids
            for perm in range(permutations):
                T, P = self._calc(nrp(y), w)
                x2 = [chi2(T[i], self.transitions)[0] for i in range(self.m)]
                x2s = sum(x2)
                x2_realizations[perm] = x2s
                if x2s >= self.x2:
                    counter += 1
            self.lclass_ids = lclass_ids
            self.x2_rpvalue = (counter + 1.0) / (permutations + 1.0)
            self.x2_realizations = x2_realizations
""", """            kept = self.lclass_ids
            drawn = []
            for _ in range(permutations):
                order = np.arange(len(y))
                np.random.shuffle(order)
                T, _P = self._calc(np.asarray(y)[order], w)
                drawn.append(sum(chi2(Ti, self.transitions)[0] for Ti in T))
            self.lclass_ids = kept
            self.x2_realizations = np.array(drawn, dtype=float).reshape(-1, 1)
            extreme = np.count_nonzero(self.x2_realizations >= self.x2)
            self.x2_rpvalue = (1 + extreme) / (1 + permutations)
""")]),
    dict(id="chi2-outer", props=["C06", "C07", "C08"], edits=[(M, """    p = np.diag(1 / rs2).dot(np.array(T2))
    E = np.diag(rs1).dot(np.array(p))
    num = T1 - E
    num = np.multiply(num, num)
    E = E + (E == 0)
    chi2 = num / E
    chi2 = chi2.sum()
""", """    p = np.array(T2) / rs2[:, np.newaxis]
    E = p * rs1[:, np.newaxis]
    num = (T1 - E) ** 2
    chi2 = (num / np.where(E == 0, 1, E)).sum()
""")]),
    dict(id="homogeneity-broadcast", props=["C07", "C25", "C06"], edits=[(M, """        p_ij = np.dot(np.diag(1.0 / (n_i + (n_i == 0) * 1.0)), T)
""", """        p_ij = T / np.where(n_i == 0, 1.0, n_i)[:, np.newaxis]
"""), (M, """            p_ijm[m] = np.dot(np.diag(1.0 / (nim + (nim == 0) * 1.0)), nijm)
            num = (p_ijm[m] - p_ij) ** 2
            ratio = num / den
            qijm = np.dot(np.diag(nim), ratio)
            q_table[m] = qijm
""", """            p_ijm[m] = nijm / np.where(nim == 0, 1.0, nim)[:, np.newaxis]
            ratio = np.square(p_ijm[m] - p_ij) / den
            qijm = nim[:, np.newaxis] * ratio
            q_table[m] = qijm
""")]),
    dict(id="summary-helper", props=["C25"], edits=[(M, """        pmats = [p0]

        print(lead)
        for r, p1 in enumerate(self.p_h1):
            p0 = []
            line0 = ["{s: <{w}}".format(s="P(%s)" % regime_names[r], w=col_width)]
            line0.extend(
                ["%*s" % (col_width, cname) for cname in class_names[: self.k]]
            )
            print("    ".join(line0))
            p0.append("&".join(line0))
            for i, row in enumerate(p1):
                line = ["%*s" % (col_width, str(class_names[i]))]
                line.extend(["%*.3f" % (col_width, v) for v in row])
                print("    ".join(line))
                p0.append("&".join(line))
            pmats.append(p0)
            print(lead)
""", """        pmats = [p0]

        print(lead)
        for regime, p1 in zip(regime_names, self.p_h1):
            rows = [[("P(%s)" % regime).ljust(col_width)]]
            rows[0] += [str(c).rjust(col_width) for c in class_names[: self.k]]
            for cname, row in zip(class_names, p1):
                rows.append([str(cname).rjust(col_width)])
                rows[-1] += [("%.3f" % v).rjust(col_width) for v in row]
            print("\\n".join("    ".join(line) for line in rows))
            pmats.append(["&".join(line) for line in rows])
            print(lead)
""")]),
    dict(id="kullback-xlogx", props=["C07", "C22"], edits=[(M, """    F1 = F == 0
    F1 = F + F1
    FLF = F * np.log(F1)
    T1 = 2 * FLF.sum()

    FdJK = F.sum(axis=0)
    FdJK1 = FdJK + (FdJK == 0)
    FdJKLFdJK = FdJK * np.log(FdJK1)
    T2 = 2 * FdJKLFdJK.sum()

    FdJd = F.sum(axis=0).sum(axis=1)
    FdJd1 = FdJd + (FdJd == 0)
    T3 = 2 * (FdJd * np.log(FdJd1)).sum()

    FIJd = F.sum(axis=2)
    FIJd1 = FIJd + (FIJd == 0)
    T4 = 2 * (FIJd * np.log(FIJd1)).sum()

    T6 = F.sum()
    T6 = 2 * T6 * np.log(T6)
""", """    def information(counts):
        return 2 * (counts * np.log(np.where(counts == 0, 1, counts))).sum()

    T1 = information(F)
    T2 = information(F.sum(axis=0))
    T3 = information(F.sum(axis=(0, 2)))
    T4 = information(F.sum(axis=2))
""")]),
    dict(id="lisa-moves", props=["C08", "C09", "C22", "C23"], edits=[(M, """        for t in range(k):
            origin = q[:, t]
            dest = q[:, t + 1]
            p_origin = pb[:, t]
            p_dest = pb[:, t + 1]
            for r in range(n):
                move_types[r, t] = TT[origin[r], dest[r]]
                key = (origin[r], dest[r], p_origin[r], p_dest[r])
                sm[r, t] = MOVE_TYPES[key]
""", """        move_types[:] = (q[:, :-1] - 1) * 4 + q[:, 1:]
        flags = np.asarray(pb).astype(bool)
        sm[:] = move_types + 32 * ~flags[:, :-1] + 16 * ~flags[:, 1:]
""")]),
    dict(id="spillover-sets", props=["C09", "C23"], edits=[(M, """                c2 = []
                c1 = []
                for c in components2:
                    c2.extend(c)
                for c in components1:
                    c1.extend(c)

                new_ids = [j for j in c2 if j not in c1]
                spill_ids = []
                for j in new_ids:
                    # find j's component in period 2
                    cj = [c for c in components2 if j in c][0]
                    # for members of j's component in period 2, check if they
                    # belonged to any components in period 1
                    for i in cj:
                        if i in c1:
                            spill_ids.append(j)
                            break
""", """                before = set().union(*components1) if components1 else set()
                spill_ids = []
                for cj in components2:
                    if before.intersection(cj):
                        spill_ids.extend(j for j in cj if j not in before)
""")]),
    dict(id="sojourn-where", props=["C02", "C25"], edits=[(M, """        absorbing_states = np.where(pii == 1)[0]
        non_absorbing_states = np.where(pii != 1)[0]
        st = np.full(len(pii), np.inf)
""", """        absorbing_states = np.flatnonzero(pii == 1)
        non_absorbing_states = np.flatnonzero(pii != 1)
        st = np.repeat(np.inf, len(pii))
""")]),
    dict(id="ranks-argsort", props=["C11"], edits=[(M, """        r_asc = np.array([rankdata(col, method="ordinal") for col in y.T]).T
        # ranks by high (1) to low (n)
""", """        r_asc = np.argsort(np.argsort(y, axis=0, kind="stable"), axis=0) + 1
        # ranks by high (1) to low (n)
""")]),
    dict(id="steady-classes", props=["C03", "C06", "C23"], edits=[(E_, """    mc = qe.MarkovChain(P)
    num_classes = mc.num_recurrent_classes
    if num_classes == 1:
        return mc.stationary_distributions[0]
    else:
        return mc.stationary_distributions
""", """    chain = qe.MarkovChain(np.array(P, dtype=float))
    found = chain.stationary_distributions
    return found[0] if len(found) == 1 else found
""")]),
    dict(id="mfpt-reversed", props=["C04", "C06", "C23"], edits=[(E_, """        for desti in range(k):
            b = np.ones(k - 1)
""", """        for desti in reversed(range(k)):
            b = np.full(k - 1, 1.0)
"""), (E_, """            m[sure] = np.linalg.solve(p_calc[sure, :][:, sure], b[sure])
""", """            if sure.size:
                m[sure] = la.solve(p_calc[np.ix_(sure, sure)], b[sure])
""")]),
    dict(id="mfpt-ergodic-solve", props=["C04", "C06"], edits=[(E_, """    A = np.zeros((k, k))
    ss = _steady_state_ergodic(P)
    for j in range(k):
        A[:, j] = ss
    A = A.transpose()
    i = np.identity(k)
    Z = la.inv(i - P + A)
    E = np.ones_like(Z)
    A_diag = np.diag(A)
    A_diag = A_diag + (A_diag == 0)
    D = np.diag(1.0 / A_diag)
    Zdg = np.diag(np.diag(Z))
    M = (i - Z + E.dot(Zdg)).dot(D)
    return M
""", """    ss = _steady_state_ergodic(P)
    i = np.eye(k)
    Z = la.inv(i - P + np.tile(ss, (k, 1)))
    return (i - Z + np.diag(Z)[np.newaxis, :]) / np.where(ss == 0, 1.0, ss)
""")]),
    dict(id="mobility-table", props=["C20", "C22"], edits=[(B, """        for i in range(k):
            for j in range(k):
                mobi = mobi + ini[i] * p[i, j] * abs(i - j)
        mobi = mobi / (k - 1)
""", """        steps = np.abs(np.subtract.outer(np.arange(k), np.arange(k)))
        mobi = (np.asarray(ini)[:, None] * p * steps).sum() / (k - 1)
""")]),
    dict(id="util-loops", props=["C21", "C01", "C05"], edits=[(U, """    if p0.sum() > 0:
        row_zero_i = np.where(p0)
        for row in row_zero_i:
            p_temp[row, row] = 1
    return p_temp
""", """    for row in np.flatnonzero(p0):
        p_temp[row, row] = 1
    return p_temp
"""), (U, """        rows, cols = np.where(p0)
        row_zero_i = list(zip(rows, cols, strict=False))
        for row in row_zero_i:
            i, j = row
            p_temp[i, j, j] = 1
""", """        i, j = np.nonzero(p0)
        p_temp[i, j, j] = 1
"""), (U, """    return X[ids, :][:, ids]
""", """    return X[np.ix_(ids, ids)]
""")]),
    dict(id="components-deque", props=["C10", "C09"], edits=[(C, """    components = 0
    marks = {node: 0 for node in ids}
    q = []
    for node in ids:
        if marks[node] == 0:
            components += 1
            q.append(node)
            if components > 1:
                return False
        while q:
            node = q.pop()
            marks[node] = components
            others = [neighbor for neighbor in w.neighbors[node] if neighbor in ids]
            for other in others:
                if marks[other] == 0 and other not in q:
                    q.append(other)
    return True
""", """    if len(ids) == 0:
        return True
    inside, seen, todo = set(ids), {ids[0]}, [ids[0]]
    while todo:
        for other in w.neighbors[todo.pop(0)]:
            if other in inside and other not in seen:
                seen.add(other)
                todo.append(other)
    return seen == inside
"""), (C, """                connected = set(connected)
                for node in connected:
                    if node in nodes:
                        nodes.remove(node)
""", """                connected = set(connected)
                nodes -= connected
""")]),
    dict(id="tau-signs", props=["C13", "C15"], edits=[(R, """        dx = 1 * (xx > xx.T) - 1 * (xx < xx.T)
        dy = 1 * (yy > yy.T) - 1 * (yy < yy.T)
        C = dx * dy
        self.S = -1 * (C < 0) + 1 * (C > 0)
""", """        dx = (xx > xx.T).astype(int) - (xx < xx.T)
        dy = (yy > yy.T).astype(int) - (yy < yy.T)
        self.S = np.sign(dx * dy)
""")]),
    dict(id="tau-brute", props=["C12", "C13", "C15"], edits=[(R, """        cd = Concordant + Discordant
        num = Concordant - Discordant
        tau = num / np.sqrt((cd + ExtraX) * (cd + ExtraY))
""", """        cd = Discordant + Concordant
        tau = (Concordant - Discordant) / np.sqrt(cd + ExtraX) / np.sqrt(cd + ExtraY)
"""), (R, """        perm = list(range(n))
        perm.sort(key=lambda a: (x[a], y[a]))
""", """        perm = sorted(range(n), key=lambda a: (x[a], y[a]))
""")]),
    dict(id="neighbor-sim", props=["C15", "C13"], edits=[(R, """                for j in range(permutations):
                    pids = np.random.permutation(rids)
                    xr[i] = x[i]
                    xr[rids] = x[pids]
                    yr[i] = y[i]
                    yr[rids] = y[pids]
                    tau_ln_sim[i, j] = self._calc(xr, yr, w, i)
""", """                order = np.arange(self.n)
                for j in range(permutations):
                    order[rids] = np.random.choice(rids, len(rids), replace=False)
                    xr, yr = x[order], y[order]
                    tau_ln_sim[i, j] = self._calc(xr, yr, w, i)
""")]),
    dict(id="hood-sim", props=["C15", "C13", "C22"], edits=[(R, """                    np.random.shuffle(rids)
                    neighbors_i = [i]
                    neighbors_i.extend(rids[: len(w.neighbors[i])])
                    n_i = len(neighbors_i)
                    neighbors_i_second = neighbors_i
                    sh_i = self.S[neighbors_i, :][:, neighbors_i_second]
""", """                    drawn = np.random.permutation(rids)[: len(w.neighbors[i])]
                    neighbors_i = [i] + drawn.tolist()
                    n_i = len(neighbors_i)
                    sh_i = self.S[np.ix_(neighbors_i, neighbors_i)]
""")]),
    dict(id="regional-sim", props=["C15", "C13", "C22"], edits=[(R, """                np.random.shuffle(rids)
                res = Tau_Local(x[rids], y[rids])
                tau_reg_sim[i] = self._calc(W, WH, P, res.S)
""", """                rids = np.random.permutation(len(x))
                tau_reg_sim[i] = self._calc(W, WH, P, self.S[rids][:, rids])
""")]),
    dict(id="theta-sim", props=["C14", "C15", "C23"], edits=[(R, """            perm = np.random.permutation
            sim = np.array([self._calc(perm(regime)) for i in range(permutations)])
            self.theta.shape = (1, len(self.theta))
            sim = np.concatenate((self.theta, sim))
""", """            labels = np.array(regime)
            rows = [self.theta]
            for _ in range(permutations):
                np.random.shuffle(labels)
                rows.append(self._calc(labels))
            self.theta = self.theta.reshape(1, -1)
            sim = np.vstack(rows)
""")]),
    dict(id="om-rows", props=["C16", "C17"], edits=[(S, """        D = np.zeros((t2 + 1, t1 + 1))
        for j in range(1, t1 + 1):
            D[0, j] = self.indel * j
        for i in range(1, t2 + 1):
            D[i, 0] = self.indel * i
""", """        D = np.zeros((t2 + 1, t1 + 1))
        D[0] = self.indel * np.arange(t1 + 1)
        D[:, 0] = self.indel * np.arange(t2 + 1)
""")]),
    dict(id="interval-costs", props=["C17", "C16"], edits=[(S, """                    self.subs_mat = np.zeros((self.k, self.k))
                    for i in range(0, self.k - 1):
                        for j in range(i + 1, self.k):
                            self.subs_mat[i, j] = j - i
                            self.subs_mat[j, i] = j - i
""", """                    ranks = np.arange(self.k)
                    self.subs_mat = np.abs(np.subtract.outer(ranks, ranks)) * 1.0
""")]),
    dict(id="rose-mod", props=["C18", "C19", "C24"], edits=[(D, """        neg = theta < 0.0
        utheta = theta * (1 - neg) + neg * (2 * np.pi + theta)
        counts, bins = np.histogram(utheta, self.cuts)
""", """        utheta = np.where(theta < 0.0, 2 * np.pi + theta, theta)
        counts, bins = np.histogram(utheta, bins=self.cuts)
"""), (D, """        r = np.sqrt(dx * dx + dy * dy)
""", """        r = np.hypot(dx, dy)
""")]),
    dict(id="rose-fresh-permutations", props=["C19", "C22", "C23"], edits=[(D, """        self._order = np.arange(len(Y))
""", ""), (D, """        rY = self.Y[self._order]  # continue from the last permutation
        idxs = np.arange(len(rY))
        counts = np.zeros((permutations, len(self.counts)))
        for m in range(permutations):
            np.random.shuffle(idxs)
            res = self._calc(rY[idxs, :], self.w, self.k)
            counts[m] = res["counts"]
        self._order = self._order[idxs]
        self.counts_perm = counts
""", """        counts = np.zeros((permutations, len(self.counts)))
        for m in range(permutations):
            res = self._calc(np.random.permutation(self.Y), self.w, self.k)
            counts[m] = res["counts"]
        self.counts_perm = counts
""")]),
    dict(id="rose-tails", props=["C19"], edits=[(D, """        self.larger_perm = np.array(
            [(counts[:, i] >= self.counts[i]).sum() for i in range(self.k)]
        )
        self.smaller_perm = np.array(
            [(counts[:, i] <= self.counts[i]).sum() for i in range(self.k)]
        )
""", """        self.larger_perm = np.sum(counts >= self.counts, axis=0)
        self.smaller_perm = np.sum(counts <= self.counts, axis=0)
""")]),
    dict(id="vectors-lines", props=["C24", "C22"], edits=[(P, """    lines = ax.plot(xs, ys, color=color, **kwargs)
""", """    lines = []
    for u in range(xs.shape[1]):
        lines.extend(ax.plot(xs[:, u], ys[:, u], color=color, **kwargs))
""")]),
    dict(id="heatmap-bincount", props=["C24", "C22"], edits=[(P, """            yr1 = clustery == row
            yr2 = clusterx == col
            heatmap_data[row, col] = (yr1 & yr2).sum()
            if row == col:
                mask[row, col] = True
""", """            both = np.logical_and(clustery == row, clusterx == col)
            heatmap_data[row, col] = np.count_nonzero(both)
            mask[row, col] = row == col
"""), (P, """    sig = 1 * (moran_loc.p_sim < p)
    hh = 1 * (sig * moran_loc.q == 1)
    ll = 3 * (sig * moran_loc.q == 3)
    lh = 2 * (sig * moran_loc.q == 2)
    hl = 4 * (sig * moran_loc.q == 4)
    cluster = hh + ll + lh + hl
    return cluster
""", """    return np.where(moran_loc.p_sim < p, moran_loc.q, 0)
""")]),
    dict(id="rose-style-context", props=["C24", "C22"], edits=[(P, """    # save_old default values
    old_gridcolor = mpl.rcParams["grid.color"]
    old_facecolor = mpl.rcParams["axes.facecolor"]
    old_edgecolor = mpl.rcParams["axes.edgecolor"]
    # define plotting style
    mpl.rcParams["grid.color"] = "w"
    mpl.rcParams["axes.edgecolor"] = "w"
    mpl.rcParams["axes.facecolor"] = "#E5E5E5"
    alpha = kwargs""", """    mpl.rcParams.update(
        {"grid.color": "w", "axes.edgecolor": "w", "axes.facecolor": "#E5E5E5"}
    )
    alpha = kwargs"""), (P, """        if can_insert_colorbar:
            fig.colorbar(c)

    # reset style to old default values
    mpl.rcParams["grid.color"] = old_gridcolor
    mpl.rcParams["axes.facecolor"] = old_facecolor
    mpl.rcParams["axes.edgecolor"] = old_edgecolor
""", """        if can_insert_colorbar:
            fig.colorbar(c)
""")]),
    dict(id="survival-functions", props=["C06", "C07", "C08", "C25"], edits=[(M, """            self._x2_pvalue = 1 - stats.chi2.cdf(self.x2, self.x2_dof)
""", """            self._x2_pvalue = stats.chi2.sf(self.x2, self.x2_dof)
"""), (M, """        pvalue = 1 - stats.chi2.cdf(chi2, self.k - 1)
""", """        pvalue = stats.chi2.sf(chi2, self.k - 1)
"""), (M, """        self.Q_p_value = 1 - stats.chi2.cdf(self.Q, self.dof)
""", """        self.Q_p_value = stats.chi2.sf(self.Q, self.dof)
"""), (M, """        self.LR_p_value = 1 - stats.chi2.cdf(self.LR, self.dof)
""", """        self.LR_p_value = stats.chi2.sf(self.LR, self.dof)
"""), (M, """    results["Conditional homogeneity pvalue"] = 1 - stats.chi2.cdf(chom, cdof)
""", """    results["Conditional homogeneity pvalue"] = stats.chi2.sf(chom, cdof)
""")]),
    dict(id="steady-solve", props=["C03", "C06", "C23"], edits=[(E_, """    if num_classes == 1:
        return mc.stationary_distributions[0]
    else:
        return mc.stationary_distributions
""", """    found = []
    for states in mc.recurrent_classes_indices:
        sub = np.asarray(P, dtype=float)[np.ix_(states, states)]
        n = len(states)
        flows = (sub - np.diag(sub.diagonal())).T
        flows -= np.diag(flows.sum(axis=0))
        flows[-1] = 1.0
        row = np.zeros(len(P))
        row[states] = np.linalg.solve(flows, np.eye(n)[-1])
        found.append(row)
    return found[0] if num_classes == 1 else np.array(found)
""")]),
    dict(id="variance-solve", props=["C04"], edits=[(E_, """    W = M.dot(2 * Zdg.dot(D) - i) + 2 * (ZM - E.dot(ZMdg))
    return np.array(W - np.multiply(M, M))
""", """    spread = 2 * (np.diag(Z) / np.diag(A)) - 1
    W = M * spread + 2 * (ZM - np.diag(ZM))
    return W - M ** 2
""")]),
    dict(id="dense-lags", props=["C05", "C06", "C18", "C19", "C23", "C24"], edits=[(M, """            ly = weights.lag_spatial(w, y)
            self.lclass_ids, self""", """            ly = w.full()[0] @ y
            self.lclass_ids, self"""), (D, """        wY = weights.lag_spatial(w, Y)
""", """        wY = w.full()[0] @ Y
""")]),
    dict(id="tau-normal", props=["C12", "C13"], edits=[(R, """        v = (4.0 * n + 10) / (9.0 * n * (n - 1))
        z = tau / np.sqrt(v)
        pval = erfc(np.abs(z) / 1.4142136)  # follow scipy
""", """        z = abs(tau) * np.sqrt(9.0 * n * (n - 1) / (2.0 * (2 * n + 5)))
        pval = erfc(z / np.sqrt(2.0))
""")]),
    dict(id="regional-sizes", props=["C13", "C15"], edits=[(R, """        denomi = np.dot(P, np.dot(W, P.T)) + np.dot(P, np.dot(WH, P.T))
        T = nomi / denomi
""", """        sizes = P.sum(axis=1)
        T = nomi / (np.outer(sizes, sizes) - np.diag(sizes))
""")]),
    dict(id="mobility-others", props=["C20", "C22"], edits=[(B, """        mobi = 1 - abs(la.det(p))
""", """        mobi = 1 - np.exp(la.slogdet(p)[1])
"""), (B, """        w, v = la.eig(p)
        eigen_value_abs = abs(w)
        mobi = 1 - np.sort(eigen_value_abs)[-2]
""", """        moduli = sorted(np.abs(la.eigvals(p)), reverse=True)
        mobi = 1 - moduli[1]
""")]),
    dict(id="rose-digitize", props=["C18", "C19", "C23", "C24"], edits=[(D, """        counts, bins = np.histogram(utheta, self.cuts)
""", """        bins = self.cuts
        inside = np.minimum(np.searchsorted(bins, utheta, side="right") - 1, k - 1)
        counts = np.bincount(inside, minlength=k)
""")]),
    dict(id="rose-hypot", props=["C18", "C24"], edits=[(D, """        r = np.sqrt(dx * dx + dy * dy)
""", """        r = np.hypot(dx, dy)
""")]),
    dict(id="lisa-finally", props=["C08", "C09", "C22", "C23"], edits=[(M, """        ml = [pml(yi, w, permutations=permutations, geoda_quads=gq) for yi in y]
""", """        ml = []
        for yi in y:
            ml.append(pml(yi, w, permutations=permutations, geoda_quads=gq))
"""), (M, """        kp = A.dot(np.kron(markov_y.p, markov_ylag.p)).dot(A.T)
        trans = self.transitions.sum(axis=1)
        t1 = np.diag(trans).dot(kp)
""", """        kp = np.kron(markov_y.p, markov_ylag.p)
        order = A.argmax(axis=1)
        trans = self.transitions.sum(axis=1)
        t1 = trans[:, None] * kp[np.ix_(order, order)]
""")]),
    dict(id="sequence-memo", props=["C16", "C17", "C22"], edits=[(S, """        for pair in itertools.combinations(range(self.n), 2):
            seq1 = y_int[pair[0]]
            seq2 = y_int[pair[1]]
            seq_dis_mat[pair[0], pair[1]] = uni_seq_dis_mat[
                dict_move_index[tuple(seq1)], dict_move_index[tuple(seq2)]
            ]

        self.seq_dis_mat = seq_dis_mat + seq_dis_mat.transpose()
""", """        which = [dict_move_index[tuple(seq)] for seq in y_int]
        self.seq_dis_mat = uni_seq_dis_mat[which][:, which]
""")]),
    dict(id="hamming-loops", props=["C17"], edits=[(S, """                    hamming_dist = (
                        d.pdist(y_int.astype(int), metric="hamming") * y_int.shape[1]
                    )
                    self.seq_dis_mat = d.squareform(hamming_dist)
""", """                    self.seq_dis_mat = np.array(
                        [[float((a != b).sum()) for b in y_int] for a in y_int]
                    )
""")]),
    dict(id="theta-onehot", props=["C14", "C15", "C23"], edits=[(R, """        within = [abs(sum(self.ranks_d[regime == reg])) for reg in self.regimes]
        return np.array(sum(within) / self.total)
""", """        within = 0
        for reg in self.regimes:
            members = np.asarray(regime) == reg
            within = within + np.abs(self.ranks_d[members].sum(axis=0))
        return within / self.total
""")]),
    dict(id="kullback-one", props=["C07"], edits=[(M, """    chom = T1 - T4 - T2 + T3
""", """    chom = (T1 - T2) - (T4 - T3)
""")]),
    dict(id="homogeneity-xlogy", props=["C07", "C25", "C06"], edits=[(M, """            ratio = (mask * p_ijm[m] + unmask) / (mask * p_ij + unmask)
            lr = nijm * np.log(ratio)
""", """            lr = nijm * (np.log(np.where(mask, p_ijm[m], 1.0)) - np.log(np.where(mask, p_ij, 1.0)))
""")]),
    dict(id="private-cache", props=["C16", "C17", "C22", "C23", "C04", "C01"], edits=[(U, """def fill_empty_diagonals(p):
""", """_SEEN = {}


def fill_empty_diagonals(p):
    _SEEN[len(_SEEN)] = np.shape(p)
    if len(_SEEN) > 10:
        _SEEN.clear()
    return _filled(p)


def _filled(p):
""")]),
]
