"""C06: evaluating a recommendation table against a ground-truth table."""
import numpy as np
import pandas as pd

import irsload
from evalcases import compare
from vlib import call, run

NAMES = {"hit", "recall", "ndcg", "map", "precision", "gini_index", "entropy", "appeared_item",
         "total_user", "valid_user", "n_items"}


def mkid(kind, n):
    return {"int": 1000 - 13 * n, "str": "id %d" % n, "float": n / 4, "tuple": ("k", n), "neg": -n,
            "ts": pd.Timestamp("2020-01-01") + pd.Timedelta(days=n),
            "mixed": n // 2 if n % 2 else str(n // 2)}[kind]


def build(rng, rows, uk, ik, ucol, icol, extra):
    cols = {ucol: [mkid(uk, u) for u, _ in rows], icol: [mkid(ik, i) for _, i in rows]}
    for e in extra:
        cols[e] = list(range(len(rows)))
    order = list(cols)
    rng.shuffle(order)
    obj = [k for k, t in ((ucol, uk), (icol, ik)) if t in ("tuple", "mixed") or not rows]
    df = pd.DataFrame({k: (pd.Series(cols[k], dtype=object) if k in obj else cols[k]) for k in order})
    if rows and rng.random() < .5:
        df.index = rng.choice([[k % 2 for k in range(len(rows))], list(range(len(rows)))[::-1]])
    return df


def real(ck, case, kinds=None):
    from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df
    rng = ck.rng
    ks = ["int", "str", "float", "tuple", "neg", "ts", "mixed"]
    uk, ik = kinds or (rng.choice(ks), rng.choice(ks))
    ucol, icol = rng.choice([("user", "item"), ("user id", "item id"), ("_u", "_i"), ("class", "1x"), ("Index", "count"), ("u", "Index")])
    extra = rng.sample(["score", "rank", "other col"], rng.randint(0, 2))
    a = build(rng, case["rec"], uk, ik, ucol, icol, extra)
    b = build(rng, case["truth"], uk, ik, ucol, icol, extra[:1])
    a0, b0 = a.copy(deep=True), b.copy(deep=True)
    th = rng.choice([1, 2, 3, 16])
    r = call(evaluate_recommendation_df, a, b, ucol, icol, n_threads=th)
    kept = a.equals(a0) and b.equals(b0) and list(a.index) == list(a0.index) and list(b.index) == list(b0.index)
    return r, kept, dict(user_ids=uk, item_ids=ik, columns=[ucol, icol], threads=th)


def gen(rng, q):
    nu, ni = rng.choice([1, 2, 4, 7]), rng.choice([1, 3, 8, 20])
    users, items = list(range(nu + 2)), list(range(ni))
    rec = []
    for u in users[:-1]:
        if rng.random() < .85:
            n = rng.choice([1, 2, ni, max(1, ni // 2)])
            rec += [[u, i] for i in rng.sample(items, min(n, ni))]
    truth = []
    for u in users[1:]:
        if rng.random() < .9:
            truth += [[u, rng.randrange(ni + 2)] for _ in range(rng.choice([1, 2, 5]))]
    if rng.random() < .05:
        rec = []
    if rng.random() < .05:
        truth = []
    # interleave users, keeping each user's own order
    if rng.random() < .7:
        byu = {}
        for r in rec:
            byu.setdefault(r[0], []).append(r)
        slots = [r[0] for r in rec]
        rng.shuffle(slots)
        rec = [byu[u].pop(0) for u in slots]
        rng.shuffle(truth)
    return dict(id=f"r{q}", rec=rec, truth=truth)


def body(ck):
    irsload.load(["irspack.evaluation._core_evaluator", *[n for n in irsload.EXTENSIONS if "evaluator" not in n]])
    r = ck.tlc("TableEvalMC", timeout=600)
    small = r.prints
    ck.log("model checked", r.distinct)
    ck.count("enumerated_tables", len(small))
    if not ck.thorough:
        small = small[:: max(1, len(small) // 1200)]
    cases = [gen(ck.rng, q) for q in range(ck.pick(500, 6000))]
    exp = ck.expect("TableEvalReplay", cases)
    ck.count("random_tables", len(cases))
    for case in small + cases:
        e = case["res"] if "res" in case else exp[case["id"]]["res"]
        r, kept, opt = real(ck, case)
        ck.traces += 1
        data = dict(case=case, options=opt, got=str(r)[:800])
        if r[0] != "ok":
            ck.violation("table/error", f"{r[1]}: {r[2]} ({opt})", data)
            continue
        names = NAMES if e["total"] else {"total_user", "valid_user", "n_items", "hit", "recall", "ndcg", "map", "precision"}
        bad = compare(r[1], e, names)
        if bad:
            ck.violation("table/metrics", "; ".join(bad[:4]) + f" ({opt})", data)
        if not kept:
            ck.violation("table/modified", "an input table was modified", data)
    ck.sample(dict(case=cases[0], model=exp[cases[0]["id"]]))
    ck.assumptions = ["a user's recommendation list names no item twice"]


def main():
    run("C06", body)
