"""C25: pairs of learning and held-out interactions."""
import numpy as np
import scipy.sparse as sps

import irsload
from vlib import call, run

FORMS = ["csr", "csc", "coo", "lil"]
UK = {"int": lambda n: n * 3 - 7, "str": lambda n: "u%d" % n, "tuple": lambda n: ("u", n)}


def matrix(rng, shape, cells, unit):
    """each matrix has its own number type; ratings may be fractions"""
    cells = [(r, c, v * unit) for r, c, v in cells]
    rng.shuffle(cells)
    whole = all(float(v).is_integer() for _, _, v in cells)
    dtype = rng.choice([np.float64, np.float32] + ([np.int64, np.int32] if whole else []))
    X = sps.coo_matrix((np.array([v for _, _, v in cells], dtype=dtype),
                        ([r for r, _, _ in cells], [c for _, c, _ in cells])), shape=tuple(shape))
    f = rng.choice(FORMS[:3] if any(v == 0 for _, _, v in cells) else FORMS)
    X = X.asformat(f)
    if f == "csr" and rng.random() < .5 and X.nnz:      # columns of a row in any order
        X = X.copy()
        for r in range(X.shape[0]):
            s = slice(X.indptr[r], X.indptr[r + 1])
            p = list(range(s.start, s.stop))
            rng.shuffle(p)
            X.indices[s], X.data[s] = X.indices[p].copy(), X.data[p].copy()
        X.has_sorted_indices = False
    return X


def plain(v, unit):
    return int(v / unit) if float(v / unit).is_integer() else -9


def cells_of(X, unit):
    X = sps.coo_matrix(X)
    return [[int(r), int(c), plain(v, unit)] for r, c, v in zip(X.row, X.col, X.data)]


def snap(p):
    return (list(p.user_ids), p.X_train.toarray().tolist(), p.X_test.toarray().tolist(), p.X_all.toarray().tolist(),
            None if p.item_ids is None else list(p.item_ids), p.n_users, p.n_items)


def perform(ck, cid, ops):
    from irspack.split import UserTrainTestInteractionPair as Pair
    rng = ck.rng
    uk, ik = rng.choice(list(UK)), rng.choice(list(UK))
    arr = rng.random() < .5
    unit = rng.choice([1, 1, .5, .25])
    pairs, snaps, out = [], [], []

    def ids(kind, ns):
        v = [UK[kind](n) for n in ns]
        return np.array(v) if arr and kind != "tuple" else v

    def code(kind, vs):
        inv = {UK[kind](n): n for n in range(-5, 200)}
        return [inv.get(v if not isinstance(v, np.generic) else v.item(), -99) for v in vs]
    for o in ops:
        kept = True
        if o["op"] == "make":
            r = o["r"]
            A = matrix(rng, r["shape"], r["train"], unit)
            B = matrix(rng, r["tshape"], r["test"], unit) if r["hastest"] else None
            us = ids(uk, r["users"])
            it = ids(ik, r["items"]) if r["hasitems"] else None
            a0, b0, u0 = A.toarray(), None if B is None else B.toarray(), list(us)
            if it is None and rng.random() < .5:
                res = call(Pair, us, A, B)
            else:
                res = call(Pair, us, A, B, it)
            kept = np.array_equal(A.toarray(), a0) and (B is None or np.array_equal(B.toarray(), b0)) and list(us) == u0
        elif o["op"] == "concat":
            res = call(pairs[o["a"] - 1].concat, pairs[o["b"] - 1])
        else:
            p = pairs[o["a"] - 1]
            res = call(lambda: (p.df_train(), p.df_test()))
            r2 = call(p.df_train), call(p.df_test)
            if (r2[0][0] == "ok") != (res[0] == "ok") or (r2[1][0] == "ok") != (res[0] == "ok"):
                res = ("err", "only one of the tables is refused", "")
        obs = dict(outcome="ok" if res[0] == "ok" else res[1])
        if res[0] == "ok" and o["op"] != "view":
            p = res[1]
            pairs.append(p)
            obs.update(users=code(uk, p.user_ids), nu=int(p.n_users), ni=int(p.n_items), train=cells_of(p.X_train, unit), test=cells_of(p.X_test, unit),
                       all=[x for x in cells_of(p.X_all, unit) if x[2]], shapes=p.X_train.shape == p.X_test.shape == p.X_all.shape == (p.n_users, p.n_items),
                       hasitems=p.item_ids is not None, items=[] if p.item_ids is None else code(ik, p.item_ids))
        elif res[0] == "ok":
            for k, df in zip(("tabtrain", "tabtest"), res[1]):
                if set(df.columns) != {"user_id", "item_id", "rating"}:
                    obs["outcome"] = f"columns {list(df.columns)}"
                    break
                obs[k] = [list(x) for x in zip(code(uk, df["user_id"].tolist()), code(ik, df["item_id"].tolist()),
                                               [plain(v, unit) for v in df["rating"]])]
        kept = kept and all(snap(p) == s for p, s in zip(pairs, snaps))
        snaps = [snap(p) for p in pairs]
        obs["kept"] = bool(kept)
        out.append(dict(o, obs=obs))
        if (res[0] == "ok") != (expected(o, [dict(ni=x.n_items) for x in pairs[:len(pairs) - (res[0] == "ok" and o["op"] != "view")]])) and o["op"] != "view":
            break       # later operations would name other pairs
    return dict(id=cid, ops=out)


def expected(o, pairs):
    if o["op"] == "make":
        r = o["r"]
        return len(r["users"]) == r["shape"][0] and (not r["hastest"] or r["tshape"] == r["shape"]) and \
            (not r["hasitems"] or len(r["items"]) == r["shape"][1])
    if o["op"] == "concat":
        return pairs[o["a"] - 1]["ni"] == pairs[o["b"] - 1]["ni"]
    return True


def history(ck):
    """a longer random history"""
    rng = ck.rng
    ops, pairs = [], []
    cols = rng.choice([[3], [3, 3, 5], [0, 1]])
    for _ in range(rng.randint(2, 7)):
        k = rng.random()
        if not pairs or k < .45:
            nu, ni = rng.choice([0, 1, 2, 6]), rng.choice(cols)

            zero = [0] if rng.random() < .2 else []      # a stored rating of zero

            def some():
                return [[u, i, rng.choice([1, 2, 5, -3] + zero)] for u in range(nu) for i in range(ni) if rng.random() < .4]
            tr, te = some(), some()
            if rng.random() < .7:       # usually a partition
                te = [x for x in te if not any(y[:2] == x[:2] for y in tr)]
            has = rng.random() < .7
            bad = rng.random()
            r = dict(users=rng.sample(range(40), nu), shape=[nu, ni], train=tr, hastest=has, tshape=[nu, ni],
                     test=te if has else [], hasitems=rng.random() < .6, items=[])
            if r["hasitems"]:
                r["items"] = rng.sample(range(40), ni)
            if bad < .07:
                r["users"] = r["users"][:-1] if r["users"] else [1]
            elif bad < .14 and has:
                r["tshape"] = rng.choice([[nu + 1, ni], [nu, ni + 1]])
            elif bad < .21 and r["hasitems"]:
                r["items"] = r["items"] + [77] if rng.random() < .5 or not r["items"] else r["items"][:-1]
            o = dict(op="make", r=r)
            if expected(o, pairs):
                pairs.append(dict(ni=ni))
        elif k < .75:
            o = dict(op="concat", a=rng.randint(1, len(pairs)), b=rng.randint(1, len(pairs)))
            if expected(o, pairs):
                pairs.append(dict(ni=pairs[o["a"] - 1]["ni"]))
        else:
            o = dict(op="view", a=rng.randint(1, len(pairs)))
        ops.append(o)
    return ops


def body(ck):
    irsload.load()
    hs = ck.tlc("InteractionPairMC").prints
    ck.count("histories_enumerated", len(hs))
    ck.log("model checked")
    ck.rng.shuffle(hs)
    cases = [perform(ck, f"e{k}", h["ops"]) for k, h in enumerate(hs[:ck.pick(1200, 10 ** 6)])]
    cases += [perform(ck, f"r{k}", history(ck)) for k in range(ck.pick(800, 12000))]
    bad = ck.judge("InteractionPairTrace", cases)
    for c in cases:
        if c["id"] in bad:
            ck.violation(f"pair/{bad[c['id']][0][:30]}", "; ".join(bad[c["id"]]), c)
    ck.sample(cases[-1])
    ck.assumptions = ["no duplicate cells in the given matrices"]


def main():
    run("C25", body)
