"""C10: holdout of specified interactions."""
import numpy as np
import pandas as pd

import irsload
from vlib import call, run


def ids(kind, n):
    return {"int": n * 3 + 5, "str": "k%03d" % n, "neg": 10 - n}[kind]


def entries(X, r, items):
    X = X.tocsr()
    row = X[r]
    row.sum_duplicates()
    return [[items[j], int(v) if float(v).is_integer() and v > 0 else -1] for j, v in zip(row.indices, row.data)]


def one(ck, q):
    from irspack.split import holdout_specific_interactions
    rng = ck.rng
    n = rng.choice([1, 3, 8, 25, 60])
    nu, ni = rng.choice([1, 2, 5, 12, 20]), rng.choice([1, 3, 8])
    pm = rng.choice([0.0, 0.2, 0.5, 1.0])
    log = [dict(u=rng.randrange(nu), i=rng.randrange(ni), m=rng.random() < pm) for _ in range(n)]
    den = 16
    rv, rt = rng.randint(0, den), rng.randint(0, den)
    if rng.random() < .6 and rv + rt > den:
        rt = den - rv
    if rng.random() < .1:
        rv = 0
    if rng.random() < .1:
        rt = 0
    given = rng.random() > .12
    if not given:                        # not given: a fifth each
        rv, rt, den = 1, 1, 5
    uk, ik = rng.choice(["int", "str", "neg"]), rng.choice(["int", "str", "neg"])
    ucol, icol = rng.choice([("the user", "it"), ("user", "item"), ("user_index", "item_index"), ("index", "flg"), ("item_index", "flag"),
                             ("indicator", "index")])
    df = pd.DataFrame({ucol: [ids(uk, l["u"]) for l in log], icol: [ids(ik, l["i"]) for l in log],
                       "z": range(n), "note": [None] * n}, index=[k % 5 for k in range(n)])
    flags = np.array([l["m"] for l in log], dtype=bool)
    ind = flags if rng.random() < .5 else np.where(flags)[0]
    ind0 = ind.copy()
    seed = rng.randint(0, 10 ** 6)
    before = df.copy(deep=True)
    kw = dict(validatable_user_ratio_val=rv / den, validatable_user_ratio_test=rt / den, random_state=seed)
    if not given:
        kw = dict(random_state=seed)
    r = call(holdout_specific_interactions, df, ucol, icol, ind, **kw)
    inv_u, inv_i = {ids(uk, k): k for k in range(30)}, {ids(ik, k): k for k in range(30)}
    c = dict(id=f"m{q}", log=log, rv=rv, rt=rt, den=den, outcome="ok" if r[0] == "ok" else r[1],
             train=[], val=[], test=[], items=[], same=True, kept=True, shape=True)
    if r[0] == "ok":
        items, d = r[1]
        c["items"] = [inv_i[i] for i in items]
        for g in ("train", "val", "test"):
            p = d[g]
            c["shape"] = c["shape"] and p.X_train.shape == (len(p.user_ids), len(items)) == p.X_test.shape
            c[g] = [dict(u=inv_u[u], learn=entries(p.X_train, k, c["items"]), held=entries(p.X_test, k, c["items"]))
                    for k, u in enumerate(p.user_ids)]
        if rng.random() < .3:
            items2, d2 = holdout_specific_interactions(df, ucol, icol, ind, **kw)
            c["same"] = all(list(d[g].user_ids) == list(d2[g].user_ids) and (d[g].X_train != d2[g].X_train).nnz == 0
                            and (d[g].X_test != d2[g].X_test).nnz == 0 for g in d)
    c["kept"] = df.equals(before) and bool(np.array_equal(ind, ind0))
    return c


def chance(ck):
    """every user with a marked interaction can land in every group"""
    from irspack.split import holdout_specific_interactions
    for uk, rv, rt, cells, ways in (("int", 1 / 3, 1 / 3, 18, 40), ("str", 1 / 3, 1 / 3, 18, 40), ("int", .5, .5, 12, 14),
                                    ("str", .5, .5, 12, 14), ("int", .5, 0, 12, 14), ("str", 0, .5, 12, 14)):
        df = pd.DataFrame({"u": [ids(uk, k % 6) for k in range(18)], "i": [k // 6 for k in range(18)]})
        seen, joint, n = set(), set(), 150
        for s in range(n):
            _, d = holdout_specific_interactions(df, "u", "i", np.arange(12), rv, rt, random_state=ck.seed * 1000 + s)
            for g in d:
                seen |= {(g, u) for u in d[g].user_ids}
            joint.add((frozenset(d["val"].user_ids), frozenset(d["test"].user_ids)))
        ck.traces += n
        if len(seen) < cells or len(joint) < ways:
            ck.violation("marked/chance", f"ratios {rv}, {rt}, over {n} seeds: {len(seen)} of {cells} (group, user), {len(joint)} divisions occur")


def body(ck):
    irsload.load()
    ck.tlc("SplitMarkedMC")
    ck.log("model checked")
    cases = [one(ck, q) for q in range(ck.pick(1200, 12000))]
    bad = ck.judge("SplitMarkedTrace", cases)
    ck.count("splits", len(cases))
    ck.sample(cases[0])
    for c in cases:
        if c["id"] in bad:
            ck.violation(f"marked/{bad[c['id']][0][:24]}", "; ".join(bad[c["id"]]), c)
    chance(ck)
    ck.assumptions = ["ratios are multiples of 1/16; group sizes round down, the remainder goes to the test group"]


def main():
    run("C10", body)
