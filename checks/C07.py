"""C07: row-wise random split."""
import numpy as np
import scipy.sparse as sps

import irsload
from vlib import call, run

POOL = {"int": [1.0, 2.0, 5.0, -3.0, 100.0], "frac": [0.5, 0.25, 1.5, -0.75, 3.125, 1e-3, 4.5],
        "big": [1e12, 2.5e9, -7e15, 1.0], "one": [1.0], "zero": [0.0, 1.0, 2.0, 0.0]}


def rows_of(X, vid):
    X = sps.csr_matrix(X)
    X.sum_duplicates()
    out = []
    for u in range(X.shape[0]):
        s, e = X.indptr[u], X.indptr[u + 1]
        out.append([[int(j), vid.get(float(v), -1)] for j, v in zip(X.indices[s:e], X.data[s:e])])
    return out


def raw_count(X):
    return sps.csr_matrix(X).nnz


def one(ck, q):
    from irspack.split import rowwise_train_test_split
    rng = ck.rng
    nu, ni = rng.choice([1, 2, 4, 7, 25]), rng.choice([1, 3, 8, 20])
    dt = rng.choice([np.float64, np.float64, np.float32, np.int64, np.int32])
    pool = POOL[rng.choice(["int", "int", "zero"]) if np.issubdtype(dt, np.integer) else rng.choice(list(POOL))]
    if dt == np.float32:
        pool = [float(np.float32(v)) for v in pool]
    p = rng.choice([0.1, 0.5, 0.9])
    if q % 50 == 0:         # more columns than small integers count, or long rows
        nu, ni, p = rng.choice([(2, 70000, 3e-4), (3, 40000, 5e-4), (2, 300, .9)])
    at = [(u, i, rng.choice(pool)) for u in range(nu) for i in range(ni) if rng.random() < p]
    X = sps.csr_matrix((np.array([v for _, _, v in at], dtype=dt), ([u for u, _, _ in at], [i for _, i, _ in at])), shape=(nu, ni), dtype=dt)
    if rng.random() < .3:
        X = X.tocsc()
    kind = rng.choice(["floor", "floor", "ceil", "n", "bad"])
    kw, rule = {}, None
    if kind == "n":
        num = rng.choice([0, 1, 2, 5, 30])
        if rng.random() < .1:       # far more than there are
            num = rng.choice([1 << 8, 1 << 16, (1 << 16) + 1, 2 ** 31 - 1])
        rule = dict(kind="n", num=num, den=1)
        kw = dict(n_test=num)
        if rng.random() < .4:      # the ratio is ignored then
            kw["test_ratio"] = rng.choice([0.0, 0.5, 1.0])
            kw["ceil_n_heldout"] = rng.random() < .5
    else:
        den = 16
        num = rng.choice([-1, -8, 17, 32]) if kind == "bad" else rng.randint(0, den)
        ceil = kind == "ceil" or (kind == "bad" and rng.random() < .5)
        rule = dict(kind="ceil" if ceil else "floor", num=num, den=den)
        if rng.random() < .4:      # a hair off a sixteenth
            rule["eps"] = rng.choice([-1, 1])
        kw = dict(test_ratio=num / den + rule.get("eps", 0) * rng.choice([2.0 ** -27, 2.0 ** -36, 2.0 ** -42]), ceil_n_heldout=ceil)
        if not ceil and rng.random() < .5:
            kw.pop("ceil_n_heldout")
        if kind != "bad" and rng.random() < .15:      # not given: a half
            rule["num"] = 8
            rule.pop("eps", None)
            kw.pop("test_ratio")
    seed = rng.randint(0, 2 ** 31 - 2)
    vid = {v: n for n, v in enumerate(pool)}
    X0 = X.copy()
    src = rows_of(X, vid)
    r = call(rowwise_train_test_split, X, random_state=seed, **kw)
    c = dict(id=f"s{q}", rows=src, rule=rule, outcome="ok" if r[0] == "ok" else r[1],
             train=[], test=[], shape=True, same=True, kept=True, dtype=True)
    if r[0] == "ok":
        a, b = r[1]
        c["train"], c["test"] = rows_of(a, vid), rows_of(b, vid)
        c["shape"] = a.shape == X.shape and b.shape == X.shape
        c["dtype"] = bool(a.dtype == dt and b.dtype == dt)
        rs = np.random.RandomState(seed) if rng.random() < .5 else seed
        r2 = call(rowwise_train_test_split, X, random_state=rs, **kw)
        c["same"] = r2[0] == "ok" and (r2[1][0] != a).nnz == 0 and (r2[1][1] != b).nnz == 0
    c["kept"] = X.shape == X0.shape and (X != X0).nnz == 0 and X.nnz == X0.nnz
    return c


def chance(ck):
    """no interaction is exempt from being held out or kept, and rows are independent"""
    from irspack.split import rowwise_train_test_split
    X = sps.csr_matrix(np.ones((4, 5)))
    hit = np.zeros((4, 5), dtype=int)
    joint = set()
    n = 200
    for s in range(n):
        _, b = rowwise_train_test_split(X, n_test=2, random_state=ck.seed * 1000 + s)
        b = b.toarray() > 0
        hit += b
        joint.add(bool((b[0] == b[1]).all()))
    ck.traces += n
    if (hit == 0).any() or (hit == n).any() or False not in joint:
        ck.violation("chance", f"over {n} seeds the held-out counts per cell are {hit.tolist()}; rows identical: {joint}")


def chance_long(ck):
    """the same for long rows"""
    from irspack.split import rowwise_train_test_split
    for width, kw in ((70, dict(test_ratio=.5)), (150, dict(n_test=75)), (300, dict(test_ratio=.5, ceil_n_heldout=True))):
        X = sps.csr_matrix(np.ones((2, width)))
        hit = np.zeros((2, width), dtype=int)
        n = 60
        for s in range(n):
            hit += rowwise_train_test_split(X, random_state=ck.seed * 1000 + s, **kw)[1].toarray() > 0
        ck.traces += n
        if (hit == 0).any() or (hit == n).any():
            ck.violation("chance/long", f"{width} interactions per row, {kw}: never held out {np.argwhere(hit == 0)[:5].tolist()}, "
                         f"always held out {np.argwhere(hit == n)[:5].tolist()}")


def body(ck):
    irsload.load()
    ck.tlc("SplitRowwiseMC")
    ck.log("model checked")
    cases = [one(ck, q) for q in range(ck.pick(1500, 15000))]
    bad = ck.judge("SplitRowwiseTrace", cases)
    ck.count("splits", len(cases))
    ck.sample(cases[0])
    for c in cases:
        if c["id"] in bad:
            ck.violation("split/" + bad[c["id"]][0][:40], "; ".join(bad[c["id"]]), c)
    chance(ck)
    chance_long(ck)
    ck.assumptions = ["ratios are multiples of 1/16, or a hair above or below one, so that the promised size is exact"]


def main():
    run("C07", body)
