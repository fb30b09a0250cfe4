"""Sets of sequences over classes 1..k and their presentation."""
import gen

FORMS = ["lists", "tuples", "array", "strings", "arrays"]
LETTERS = "ABCDEFGHIJKLMNOP"


def dense(seqs):
    used = sorted({c for s in seqs for c in s})
    m = {c: i + 1 for i, c in enumerate(used)}
    return [[m[c] for c in s] for s in seqs], len(used)


def dressing(rng, k, form=None):
    kind = rng.choice([n for n, ls in gen.LABELS.items() if len(ls) >= k and n != "bool"])
    return {"labels": kind, "form": form or rng.choice(FORMS if k <= len(LETTERS) else FORMS[:3])}


def present(seqs, x):
    """The sequences as a user would pass them."""
    import numpy as np

    form, kind = x["form"], x["labels"]
    if form == "strings":
        return ["".join(LETTERS[c - 1] for c in s) for s in seqs]
    if kind == "many":
        lab = list(range(100, 140))
    else:
        lab = [v.item() if hasattr(v, "item") else v for v in gen.np_labels(kind)]
    rows = [[lab[c - 1] for c in s] for s in seqs]
    same = len({len(s) for s in seqs}) == 1
    dt = gen.DTYPES.get(kind)
    if form == "tuples":
        return tuple(tuple(r) for r in rows)
    if form == "array" and same:
        return np.array(rows, dtype=dt)
    if form == "arrays":
        return [np.array(r, dtype=dt) for r in rows]
    return rows


def labels(x):
    import numpy as np

    if x["form"] == "strings":
        return list(LETTERS)
    if x["labels"] == "many":
        return list(range(100, 140))
    return [v.item() if hasattr(v, "item") else v for v in gen.np_labels(x["labels"])]


def random_set(rng, n=None, k=None, longest=7, equal=None):
    n = n or rng.choice([1, 2, 2, 3, 4, 5])
    k = k or rng.choice([1, 2, 2, 3, 3, 4, 5, 9, 12])
    equal = rng.random() < 0.5 if equal is None else equal
    t = rng.randint(1, longest)
    base = [rng.randint(1, k) for _ in range(longest)]
    seqs = []
    for _ in range(n):
        m = t if equal else rng.randint(1, longest)
        r = rng.random()
        if seqs and r < 0.15:
            s = list(rng.choice(seqs))
        elif r < 0.45:  # a relative of the others: shifted, with gaps or changes
            o = rng.randint(0, 2)
            s = (base[o:] + base[:o])[:m]
            for _ in range(rng.randint(0, 2)):
                s[rng.randrange(m)] = rng.randint(1, k)
        elif r < 0.6:
            s = [rng.randint(1, k)]
            while len(s) < m:
                s.append(s[-1] if rng.random() < 0.7 else rng.randint(1, k))
        else:
            s = [rng.randint(1, k) for _ in range(m)]
        seqs.append(s)
    return dense(seqs)


def long_set(rng, longest):
    """A few long sequences, related to one another."""
    k = rng.choice([2, 3, 5, 11])
    t = rng.randint(12, longest)
    base = [rng.randint(1, k)]
    while len(base) < t:
        base.append(base[-1] if rng.random() < rng.choice([0.2, 0.8]) else rng.randint(1, k))
    seqs = [base]
    for _ in range(rng.randint(1, 3)):
        o = rng.randint(0, 5)
        s = base[o:] + base[:o]
        for _ in range(rng.randint(0, 4)):
            s[rng.randrange(t)] = rng.randint(1, k)
        seqs.append(s)
    return dense(seqs)


def many_classes(rng):
    """Over ten classes, so that 1,12 and 11,2 are different sequences."""
    k = rng.choice([11, 12, 13, 16])
    seqs = [list(range(1, k + 1))]
    pool = [1, 2, 11, 10, k]
    for _ in range(rng.randint(2, 4)):
        seqs.append([rng.choice(pool) for _ in range(rng.randint(1, 4))])
    for base in (0, 1):  # codes counted from zero or from one
        digits = "".join(str(rng.choice([0, 1, 1, 1, 10, 11, 12]) + base) for _ in range(rng.randint(2, 4)))
        for _ in range(2):  # two readings of the same digits
            s, i = [], 0
            while i < len(digits):
                j = i + 2 if rng.random() < 0.5 and digits[i] != "0" and int(digits[i:i + 2]) < k + base else i + 1
                s.append(int(digits[i:j]) + 1 - base)
                i = j
            if all(1 <= c <= k for c in s):
                seqs.append(s)
    rng.shuffle(seqs)
    return seqs, k


def build(c, **kw):
    from core import quiet
    from giddy.sequence import Sequence

    return quiet(Sequence, present(c["in"]["seqs"], c["x"]), **kw)


def observed(c, s):
    import numpy as np
    from core import arr, num

    lab = labels(c["x"])
    out = {"dis": arr(s.seq_dis_mat), "k": int(s.k),
           "classes": [lab.index(v) + 1 if v in lab else 0 for v in np.asarray(s.classes).tolist()]}
    if s.indel is not None:
        out["indel"] = num(s.indel)
    if s.subs_mat is not None:
        out["sub"] = arr(s.subs_mat)
    return out
