"""C09: partial-user holdout."""
import json
import os
import subprocess
import sys

import numpy as np
import pandas as pd

import irsload
from vlib import call, run

VALS = [1.0, 2.5, 0.5, 4.0, 3.25]


def ids(kind, n):
    return {"int": n * 3 + 5, "str": "k%03d" % n, "neg": 10 - n, "float": n + 0.25}[kind]


def entries(row, inv_item, rated):
    return [[inv_item[j], VALS.index(float(v)) if rated and float(v) in VALS else (0 if (not rated and v == 1) else -1)]
            for j, v in zip(row.indices, row.data)]


def group(p, inv_user, inv_item, item_list, rated):
    A, B = p.X_train.tocsr(), p.X_test.tocsr()
    cols = {j: inv_item[i] for j, i in enumerate(item_list)}
    out = []
    for r, u in enumerate(p.user_ids):
        out.append(dict(u=inv_user[u], learn=entries(A[r], cols, rated), held=entries(B[r], cols, rated)))
    return out


def rule(rng, kind=None):
    kind = kind or rng.choice(["n", "floor", "ceil"])
    if kind == "n":
        return dict(kind="n", num=rng.choice([0, 1, 2, 50]), den=1)
    return dict(kind=kind, num=rng.randint(0, 8), den=8)


def frames_ok(p, item_list):
    """the table view of a group equals its matrices"""
    if p.item_ids is None:
        return True
    for X, df in ((p.X_train, p.df_train()), (p.X_test, p.df_test())):
        X = X.tocsr()
        want = {(p.user_ids[u], item_list[j]): X[u, j] for u, j in zip(*X.nonzero())}
        got = {(r.user_id, r.item_id): r.rating for r in df.itertuples()}
        if want != got or len(df) != len(want):
            return False
    return (p.X_all != (p.X_train + p.X_test)).nnz == 0


def one(ck, q):
    from irspack.split import split_dataframe_partial_user_holdout as split
    rng = ck.rng
    n = rng.choice([1, 3, 8, 20, 60])
    nu, ni = rng.choice([1, 2, 4, 9, 12, 25]), rng.choice([1, 3, 8])
    nt = rng.choice([1, 4, 100])
    log = [dict(u=rng.randrange(nu), i=rng.randrange(ni), v=rng.randrange(len(VALS)), t=rng.randrange(nt)) for _ in range(n)]
    if rng.random() < .5:  # every user appears
        log += [dict(u=u, i=rng.randrange(ni), v=rng.randrange(len(VALS)), t=rng.randrange(nt)) for u in range(nu)]
        rng.shuffle(log)
    nu = len({l["u"] for l in log})
    time, rated = rng.random() < .5, rng.random() < .5
    hk = rng.choice(["floor", "ceil"])
    hv, ht = (rule(rng, rng.choice(["n", hk])) for _ in range(2))
    kw = dict(ceil_n_heldout=hk == "ceil", random_state=rng.randint(0, 10 ** 6))
    for nm, h in (("val", hv), ("test", ht)):
        if h["kind"] == "n":
            kw[f"n_heldout_{nm}"] = h["num"]
        elif rng.random() < .2:         # not given: a half
            h["num"] = h["den"] // 2
        else:
            kw[f"heldout_ratio_{nm}"] = h["num"] / h["den"]
    if hk == "floor" and rng.random() < .5:
        kw.pop("ceil_n_heldout")
    gs = {}
    for nm in ("val", "test"):
        if rng.random() < .5:
            k = rng.choice([0, 1, 2, nu // 2, nu, nu + 1])
            gs[nm] = dict(kind="n", num=k, den=1)
            kw[f"n_{nm}_user"] = k
        elif rng.random() < .2:         # not given: a tenth
            gs[nm] = dict(kind="ratio", num=1, den=10)
        else:
            k = rng.choice([0, 1, 2, 4, 8, 12, 16])
            gs[nm] = dict(kind="ratio", num=k, den=16)
            kw[f"{nm}_user_ratio"] = k / 16
    uk, ik = rng.choice(["int", "str", "neg", "float"]), rng.choice(["int", "str", "neg", "float"])
    ucol, icol, rcol, tcol = rng.choice([("u id", "item", "r", "t"), ("index", "count", "level_0", "size"),
                                         ("user_id", "item_id", "rating", "timestamp")])
    df = pd.DataFrame({ucol: [ids(uk, l["u"]) for l in log], icol: [ids(ik, l["i"]) for l in log],
                       "note": [rng.choice(["x", None]) for _ in log], rcol: [VALS[l["v"]] for l in log], tcol: [l["t"] * 10 for l in log]},
                      index=[k % 7 for k in range(len(log))])
    if time:
        kw["time_column"] = tcol
    if rated:
        kw["rating_column"] = rcol
    before = df.copy(deep=True)
    inv_u, inv_i = {ids(uk, k): k for k in range(30)}, {ids(ik, k): k for k in range(30)}
    r = call(split, df, ucol, icol, **kw)
    c = dict(id=f"p{q}", log=log, gv=gs["val"], gt=gs["test"], hv=hv, ht=ht, time=time, rated=rated,
             outcome="ok" if r[0] == "ok" else r[1], train=[], val=[], test=[], items=[], same=True, kept=True, frames=True)
    if r[0] == "ok":
        d, items = r[1]
        if set(d) != {"train", "val", "test"}:
            c["outcome"] = f"groups {sorted(d)}"
            return c
        for g in ("train", "val", "test"):
            c[g] = group(d[g], inv_u, inv_i, items, rated)
            if d[g].X_train.shape != (len(d[g].user_ids), len(items)) or d[g].n_items != len(items):
                c["frames"] = False
            c["frames"] = c["frames"] and bool(frames_ok(d[g], items))
        c["items"] = [inv_i[i] for i in items]
        if rng.random() < .3:
            r2 = call(split, df, ucol, icol, **kw)
            d2, items2 = r2[1]
            c["same"] = list(items2) == list(items) and all(
                list(d[g].user_ids) == list(d2[g].user_ids) and (d[g].X_train != d2[g].X_train).nnz == 0 and
                (d[g].X_test != d2[g].X_test).nnz == 0 for g in ("train", "val", "test"))
    c["kept"] = df.equals(before)
    return c


SUB = r"""
import sys, json
sys.path.insert(0, sys.argv[1])
import irsload; irsload.load()
import pandas as pd
from irspack.split import split_dataframe_partial_user_holdout as split
df = pd.DataFrame({"u": ["a%d" % (k * 7 % 11) for k in range(80)], "i": ["i%d" % (k * k % 23) for k in range(80)], "t": range(80)})
out = []
for kw in ({}, {"time_column": "t"}):
    d, items = split(df, "u", "i", n_val_user=4, n_test_user=3, random_state=7, **kw)
    for g in ("train", "val", "test"):
        p = d[g]
        for X in (p.X_train, p.X_test):
            X = X.tocsr()
            out.append(sorted([p.user_ids[u], items[j]] for u, j in zip(*X.nonzero())))
print(json.dumps(out))
"""


def across_processes(ck):
    outs = []
    for h in ("1", "2", "77"):
        e = dict(os.environ, PYTHONHASHSEED=h)
        p = subprocess.run([sys.executable, "-c", SUB, os.path.dirname(irsload.__file__)], env=e, capture_output=True, text=True)
        if p.returncode:
            ck.violation("process/outcome", p.stderr[-500:])
            return
        outs.append(json.loads(p.stdout))
    ck.traces += 3
    if any(o != outs[0] for o in outs):
        ck.violation("process/seed", "the same seed gives another split in another process (hash seed)", SUB)


def bad_ratios(ck):
    """a ratio of users outside [0, 1] is no request that can be met"""
    from irspack.split import split_dataframe_partial_user_holdout as split
    df = pd.DataFrame({"u": [k % 10 for k in range(40)], "i": [k % 7 for k in range(40)], "t": range(40)})
    for nm in ("val", "test"):
        for bad in (-.5, -.01, 1.01, 1.5, 2.0):
            for rest in ({}, dict(time_column="t"), {("test" if nm == "val" else "val") + "_user_ratio": .9}):
                r = call(split, df, "u", "i", random_state=1, **{nm + "_user_ratio": bad}, **rest)
                ck.traces += 1
                if r[0] == "ok":
                    ck.violation("users/ratio", f"{nm}_user_ratio={bad} {rest} is accepted")


def chance(ck):
    """the seed decides: every user can land in every group, every interaction of a
    validation or test user can be held out or kept, and groups are not tied together"""
    from irspack.split import split_dataframe_partial_user_holdout as split
    for uk in ("int", "str"):
        df = pd.DataFrame({"u": [ids(uk, k % 6) for k in range(24)], "i": [k // 6 for k in range(24)]})
        seen, held, joint = set(), set(), set()
        n = 150
        for s in range(n):
            d, items = split(df, "u", "i", n_val_user=2, n_test_user=2, n_heldout_val=2, n_heldout_test=2, random_state=ck.seed * 1000 + s)
            for g in d:
                seen |= {(g, u) for u in d[g].user_ids}
                B = d[g].X_test.toarray() > 0
                held |= {(u, items[j], bool(B[k, j])) for k, u in enumerate(d[g].user_ids) for j in range(4) if g != "train"}
            joint.add((frozenset(d["val"].user_ids), frozenset(d["test"].user_ids)))
        ck.traces += n
        if len(seen) < 18 or len(held) < 48 or len(joint) < 40:
            ck.violation("users/chance", f"over {n} seeds: {len(seen)} of 18 (group, user), {len(held)} of 48 (user, item, held out), "
                         f"{len(joint)} of 90 divisions occur")


def body(ck):
    irsload.load()
    ck.tlc("SplitUsersMC")
    ck.log("model checked")
    cases = [one(ck, q) for q in range(ck.pick(1200, 12000))]
    bad = ck.judge("SplitUsersTrace", cases)
    ck.count("splits", len(cases))
    ck.sample(cases[0])
    for c in cases:
        if c["id"] in bad:
            k = "infeasible" if bad[c["id"]][0].startswith("more users") else bad[c["id"]][0][:24]
            ck.violation(f"users/{k}", "; ".join(bad[c["id"]]), c)
    across_processes(ck)
    bad_ratios(ck)
    chance(ck)
    ck.assumptions = ["ratings are non-zero; ids are not missing; ratios are dyadic"]


def main():
    run("C09", body)
