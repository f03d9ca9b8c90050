"""C11: id-based recommendation and log-to-matrix conversion."""
import numpy as np
import pandas as pd
import scipy.sparse as sps

import irsload
from evalcases import NINF
from vlib import call, run


def mkid(kind, n):
    return {"int": n * 7 - 20, "str": "x%d" % n, "tuple": ("t", n), "float": n + 0.5, "idx": n,
            "mixed": n // 2 if n % 2 else str(n // 2)}[kind]


def model(table, X, cold):
    from irspack.recommenders.base import BaseRecommender

    class M(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, u):
            return table[u].copy()

        def get_score_cold_user(self, Xc):
            cold.append(sps.csr_matrix(Xc))
            return table[:Xc.shape[0]].copy()

    return M(X)


def levels(rng, n, dtype):
    kind = rng.choice(["plain", "close", "wide", "extreme"])
    if kind == "extreme":
        f = np.finfo(dtype)
        return ([float(f.min)] + [float(f.smallest_subnormal) * v for v in range(n - 3)] + [float(f.max), float("inf")])[-n:]
    if kind == "plain":
        return [float(v) - 3 for v in range(n)]
    if kind == "close":   # neighbours that a lower precision would merge
        eps = 2.0 ** -22 if dtype == np.float32 else 2.0 ** -40
        return [1.0 + v * eps for v in range(n)]
    return [(-1.0) ** (v + 1) * 0 + (v - n / 2) * 1e8 for v in range(n)]


def one(ck, q):
    """one request -> one trace case per user"""
    from irspack.utils.id_mapping import IDMapper, ItemIDMapper
    rng = ck.rng
    nu, ni = rng.choice([1, 2, 3, 6]), rng.choice([1, 2, 4, 9, 20, 20, 27]) if q % 12 else rng.choice([60, 130])
    dtype = rng.choice([np.float32, np.float64])
    nl = rng.choice([1, 2, 4, 12])
    lv = levels(rng, nl, dtype)
    sc = [[NINF if rng.random() < .1 else rng.randrange(nl) for _ in range(ni)] for _ in range(nu)]
    table = np.array([[-np.inf if v == NINF else lv[v] for v in r] for r in sc], dtype=dtype).reshape(nu, ni)
    back = {float(dtype(v)): n for n, v in enumerate(lv)}
    seen = [[i for i in range(ni) if rng.random() < rng.choice([0, .3])] for _ in range(nu)]
    X = sps.lil_matrix((nu, ni))
    for u in range(nu):
        for i in seen[u]:
            X[u, i] = rng.choice([1.0, 2.5, 0.25, -1.0])
    kind = rng.choice(["known1", "knownB", "new1", "newB", "score1", "scoreB", "scoreB"])
    uk, ik = rng.choice(["int", "str", "tuple", "mixed"]), rng.choice(["int", "str", "tuple", "float", "idx", "mixed"])
    iid = [mkid(ik, n) for n in range(ni)]
    uid = [mkid(uk, n) for n in range(nu)]
    cold = []
    m = model(table, X.tocsr(), cold)
    mapper = IDMapper(uid, iid) if kind.startswith("known") else ItemIDMapper(iid)
    cutoff = rng.choice([0, 1, 2, 3, ni, ni + 3, 20])
    ckw = dict(cutoff=cutoff)
    if kind[:5] in ("known", "new1", "newB") and rng.random() < .15:
        cutoff, ckw = 20, {}          # not given: twenty
    batch = kind.endswith("B")
    users = [rng.randrange(nu)] if not batch else (
        list(range(nu)) if kind != "knownB" else [rng.randrange(nu) for _ in range(rng.randint(1, 5))])
    if kind in ("new1", "score1"):
        users = [0]

    def some(p, unknown=True):
        s = [i for i in range(ni) if rng.random() < p]
        rng.shuffle(s)
        out = [iid[i] for i in s]
        if unknown and rng.random() < .3:
            out.insert(rng.randint(0, len(out)), mkid(ik, 777))
        if s and rng.random() < .15:
            out.append(rng.choice([o for o in out if o in iid]))
        return s, out

    kw, allow, forbid = {}, None, None
    if batch:
        if rng.random() < .4:
            s, o = some(.6)
            kw["allowed_item_ids"] = o
            allow = [s] * len(users)
        if rng.random() < .4:
            per = [some(rng.choice([0, .5])) for _ in users]
            kw["per_user_allowed_item_ids"] = [o for _, o in per]
            allow = [s for s, _ in per]
        if rng.random() < .4:
            per = [some(rng.choice([.3, .3, .9])) for _ in users]
            kw["forbidden_item_ids"] = [o for _, o in per]
            forbid = [s for s, _ in per]
        kw["n_threads"] = rng.choice([1, 2, 5])
    else:
        if rng.random() < .5:
            s, o = some(.6)
            kw["allowed_item_ids"], allow = o, [s]
        if rng.random() < .5:
            s, o = some(rng.choice([.3, .9]))
            kw["forbidden_item_ids"], forbid = o, [s]
    kept = True
    remove = True
    if kind == "known1":
        r = call(mapper.recommend_for_known_user_id, m, uid[users[0]], **ckw, **kw)
    elif kind == "knownB":
        r = call(mapper.recommend_for_known_user_batch, m, [uid[u] for u in users], **ckw, **kw)
    elif kind in ("new1", "newB"):
        prof = []
        for u in users:
            if rng.random() < .5:
                p = [iid[i] for i in seen[u]]
                rng.shuffle(p)
                if rng.random() < .3:
                    p.append(mkid(ik, 888))
            else:
                p = {iid[i]: rng.choice([1.0, .5, 3.0, -2.0]) for i in seen[u]}
                if rng.random() < .3:
                    p[mkid(ik, 888)] = 2.0
            prof.append(p)
        if kind == "new1":
            r = call(mapper.recommend_for_new_user, m, prof[0], **ckw, **kw)
        else:
            r = call(mapper.recommend_for_new_user_batch, m, prof, **ckw, **kw)
        # the profile handed to the model is exactly the known part
        if cold:
            got = cold[-1].toarray()
            want = np.zeros((len(users), ni))
            for k, p in enumerate(prof):
                for it in p:
                    if it in iid:
                        want[k, iid.index(it)] += p[it] if isinstance(p, dict) else 1.0
            kept = kept and np.array_equal(got, want)
    else:
        remove = False
        full = table if batch else table[0]
        arr = np.array(full, order=rng.choice(["C", "F"]))
        before = arr.copy()
        if batch:
            r = call(mapper.score_to_recommended_items_batch, arr, cutoff, **kw)
        else:
            r = call(mapper.score_to_recommended_items, arr, cutoff, **kw)
        kept = np.array_equal(arr, before)
    out = []
    lists = ([] if r[0] == "err" else (r[1] if batch else [r[1]]))
    if r[0] == "ok" and len(lists) != len(users):
        lists = [[]] * len(users)
        kept = False
    for k, u in enumerate(users):
        got = []
        if r[0] == "ok":
            for it, s in lists[k]:
                got.append([iid.index(it) if it in iid else -5, back.get(float(s), -1)])
        out.append(dict(id=f"q{q}.{k}", ni=ni, score=sc[u], seen=seen[u] if remove else [],
                        hasallow=allow is not None, allow=allow[k] if allow is not None else [],
                        forbid=forbid[k] if forbid is not None else [], cutoff=cutoff, got=got,
                        outcome="ok" if r[0] == "ok" else r[1], valid=True, kept=bool(kept), how=kind,
                        dt=dtype.__name__))
    return out


def rejections(ck):
    from irspack.utils.id_mapping import IDMapper, ItemIDMapper
    rng = ck.rng
    out = []

    def add(name, r):
        out.append(dict(id=name, ni=1, score=[0], seen=[], hasallow=False, allow=[], forbid=[], cutoff=1, got=[],
                        outcome="ok" if r[0] == "ok" else r[1], valid=False, kept=True, how="reject", dt=""))
    m = model(np.zeros((2, 3)), sps.csr_matrix((2, 3)), [])
    mp = IDMapper(["a", "b"], [1, 2, 3])
    add("dup-items", call(ItemIDMapper, [1, 2, 1]))
    add("dup-users", call(IDMapper, ["a", "a"], [1, 2]))
    add("dup-items2", call(IDMapper, ["a", "b"], [1, 1]))
    add("unknown-user", call(mp.recommend_for_known_user_id, m, "zz"))
    add("unknown-user-batch", call(mp.recommend_for_known_user_batch, m, ["a", "zz"]))
    add("unknown-user-batch2", call(mp.recommend_for_known_user_batch, m, ["zz"]))
    m2 = model(np.zeros((3, 3)), sps.csr_matrix((3, 3)), [])
    add("users-differ", call(mp.recommend_for_known_user_id, m2, "a"))
    add("users-differ-batch", call(mp.recommend_for_known_user_batch, m2, ["a"]))
    m3 = model(np.zeros((2, 4)), sps.csr_matrix((2, 4)), [])
    add("items-differ", call(mp.recommend_for_new_user, m3, [1]))
    add("items-differ-batch", call(mp.recommend_for_new_user_batch, m3, [[1]]))
    add("items-differ-known", call(mp.recommend_for_known_user_id, m3, "a"))
    add("score-width", call(mp.score_to_recommended_items, np.zeros(4), 1))
    add("score-width-batch", call(mp.score_to_recommended_items_batch, np.zeros((2, 4)), 1))
    add("score-type", call(mp.score_to_recommended_items_batch, np.zeros((2, 3), dtype=np.int64), 1))
    add("score-short", call(mp.score_to_recommended_items, np.zeros(2), 1))
    add("score-short-batch", call(mp.score_to_recommended_items_batch, np.zeros((2, 2)), 1))
    m4 = model(np.zeros((2, 2)), sps.csr_matrix((2, 2)), [])
    add("items-fewer", call(mp.recommend_for_new_user, m4, [1]))
    add("items-fewer-batch", call(mp.recommend_for_new_user_batch, m4, [[1]]))
    add("items-fewer-known", call(mp.recommend_for_known_user_id, m4, "a"))
    # per-user lists must be as many as the users
    for n in (0, 1, 3):
        for key in ("per_user_allowed_item_ids", "forbidden_item_ids"):
            kw = {key: [[1, 2]] * n, "n_threads": 1}
            add(f"lists-{n}-{key}", call(mp.score_to_recommended_items_batch, np.zeros((2, 3)), 2, **kw))
            add(f"lists-{n}-{key}-known", call(mp.recommend_for_known_user_batch, m, ["a", "b"], **kw))
            add(f"lists-{n}-{key}-new", call(mp.recommend_for_new_user_batch, m, [[1], [2]], **kw))
    return out


def log_matrix(ck, q):
    from irspack.utils import df_to_sparse
    from irspack.utils.id_mapping import ItemIDMapper
    rng = ck.rng
    n = rng.choice([0, 1, 5, 20, 60])
    nu, ni = rng.choice([1, 3, 6]), rng.choice([1, 4, 9])
    if q % 100 == 7:        # the same pairs over and over
        n, nu, ni = 1500, 1, 1
    uk, ik = rng.choice(["int", "str", "float"]), rng.choice(["int", "str", "float"])
    perm_u, perm_i = rng.sample(range(nu + 2), nu + 2), rng.sample(range(ni + 2), ni + 2)
    log = [[rng.randrange(nu + 2), rng.randrange(ni + 2), rng.choice([1, 2, 4, 6, 10, -2] + ([2 ** 24 + 1] if n <= 60 else []))] for _ in range(n)]
    rated = rng.random() < .6
    ucol, icol, rcol = rng.choice([("U x", "I", "R"), ("index", "count", "level_0"), ("user", "item", "rating")])
    df = pd.DataFrame({ucol: pd.Series([mkid(uk, l[0]) for l in log], dtype=object if n == 0 else None),
                       icol: pd.Series([mkid(ik, l[1]) for l in log], dtype=object if n == 0 else None),
                       rcol: [l[2] / 4 for l in log], "note": None})
    if n:
        df.index = [k % 3 for k in range(n)]
    before = df.copy(deep=True)
    gu, gi = rng.random() < .6, rng.random() < .6
    users = perm_u[:nu] if gu else sorted({l[0] for l in log}, key=lambda x: mkid(uk, x))
    items = perm_i[:ni] if gi else sorted({l[1] for l in log}, key=lambda x: mkid(ik, x))
    dup = gu and rng.random() < .05
    ulist = [mkid(uk, u) for u in users] + ([mkid(uk, users[0])] if dup else [])
    ilist = [mkid(ik, i) for i in items]
    r = call(df_to_sparse, df, ucol, icol, user_ids=ulist if gu else None, item_ids=ilist if gi else None,
             rating_column=rcol if rated else None)
    c = dict(id=f"l{q}", log=[[a, b, v if rated else 4] for a, b, v in log], users=users, items=items,
             outcome="ok" if r[0] == "ok" else r[1], cells=[], shape=True, kept=bool(df.equals(before)), valid=not dup)
    if r[0] == "ok":
        X, us, its = r[1]
        D = X.toarray()
        # an axis without a given id list: any list of distinct ids of the log, in any order,
        # that names every interaction kept by the other axis
        bu, bi = {mkid(uk, u): u for u in range(nu + 2)}, {mkid(ik, i): i for i in range(ni + 2)}
        ru, ri = [bu.get(a, -9) for a in us], [bi.get(a, -9) for a in its]
        keep = [l for l in log if (not gu or l[0] in users) and (not gi or l[1] in items)]
        okax = True
        if not gu:
            okax &= len(set(ru)) == len(ru) and {l[0] for l in keep} <= set(ru) <= {l[0] for l in log}
            users = ru
        if not gi:
            okax &= len(set(ri)) == len(ri) and {l[1] for l in keep} <= set(ri) <= {l[1] for l in log}
            items = ri
        c["users"], c["items"] = users, items
        c["cells"] = [[int(a), int(b), int(round(D[a, b] * 4))] for a, b in zip(*np.nonzero(D))]
        c["shape"] = bool(okax and X.shape == (len(users), len(items)) and ru == list(users) and ri == list(items))
    return c


def profiles(ck, q):
    from irspack.utils.id_mapping import ItemIDMapper
    rng = ck.rng
    ni, nu = rng.choice([1, 4, 9]), rng.choice([0, 1, 5])
    ik = rng.choice(["int", "str", "tuple"])
    items = rng.sample(range(ni + 2), ni)
    log, prof = [], []
    for u in range(nu):
        if rng.random() < .5:
            p = [rng.randrange(ni + 2) for _ in range(rng.randint(0, 6))]
            log += [[u, i, 4] for i in p]
            prof.append([mkid(ik, i) for i in p])
        else:
            d = {rng.randrange(ni + 2): rng.choice([1, 2, 6, -4]) for _ in range(rng.randint(0, 5))}
            log += [[u, i, v] for i, v in d.items()]
            prof.append({mkid(ik, i): v / 4 for i, v in d.items()})
    m = ItemIDMapper([mkid(ik, i) for i in items])
    r = call(m.list_of_user_profile_to_matrix, prof)
    c = dict(id=f"p{q}", log=log, users=list(range(nu)), items=items, outcome="ok" if r[0] == "ok" else r[1],
             cells=[], shape=True, kept=True, valid=True)
    if r[0] == "ok":
        D = r[1].toarray()
        c["cells"] = [[int(a), int(b), int(round(D[a, b] * 4))] for a, b in zip(*np.nonzero(D))]
        c["shape"] = r[1].shape == (nu, ni)
    return c


def wide_logs(ck):
    """id tables around the sizes where code widths change"""
    from irspack.utils import df_to_sparse
    for n in (100, 127, 128, 129, 255, 256, 300) + ((32767, 32768, 40000) if ck.thorough else (32769,)):
        us = np.arange(n) * 3
        df = pd.DataFrame({"u": us[::-1], "i": us % 7, "r": np.arange(n) + 1.0})
        for kw in ({}, dict(user_ids=us.tolist())):
            X, u, i = df_to_sparse(df, "u", "i", rating_column="r", **kw)
            pos = {a: k for k, a in enumerate(u)}
            ipos = {a: k for k, a in enumerate(i)}
            rows = np.array([pos[a] for a in df["u"]])
            cols = np.array([ipos[a] for a in df["i"]])
            ok = X.shape == (n, 7) and X.nnz == n and np.array_equal(np.asarray(X[rows, cols]).ravel(), df["r"].values)
            ck.traces += 1
            if not ok:
                ck.violation("matrix/wide", f"{n} users: entries do not match the log")


def wide_tables(ck):
    """many users, many items, long profiles: the same answers as from the small table the large one was made of"""
    from irspack.utils.id_mapping import IDMapper
    rng = ck.rng
    for nu, ni in ((5000, 40), (40, 5000), (3, 40000)):
        r = np.random.RandomState(rng.randrange(10 ** 6))
        table = r.permutation(nu * ni).reshape(nu, ni).astype(rng.choice([np.float32, np.float64]))
        X = sps.random(nu, ni, .2 if ni < 5000 else .01, format="csr", random_state=r)
        uid, iid = ["u%d" % k for k in range(nu)], [k * 3 + 1 for k in range(ni)]
        m = IDMapper(uid, iid)
        rec = model(table, X, [])
        who = sorted({0, 1, nu - 1, nu // 2} | {rng.randrange(nu) for _ in range(4)})
        for cutoff in (1, 20, 300, ni):
            asked = rng.sample(who, len(who))
            allow = rng.choice([None, sorted(rng.sample(iid, ni // 2))])
            got = m.recommend_for_known_user_batch(rec, [uid[u] for u in asked], cutoff=cutoff, n_threads=rng.choice([1, 3]), allowed_item_ids=allow)
            got1 = [m.recommend_for_known_user_id(rec, uid[u], cutoff=cutoff, allowed_item_ids=allow) for u in asked]
            ck.traces += 2 * len(asked)
            for u, g, g1 in zip(asked, got, got1):
                ok = set(range(ni)) - set(X[u].nonzero()[1].tolist())
                if allow is not None:
                    ok &= {(i - 1) // 3 for i in allow}
                want = [(iid[i], float(table[u, i])) for i in sorted(ok, key=lambda i: -table[u, i])[:cutoff]]
                for name, x in (("batch", g), ("single", g1)):
                    if [(i, float(s)) for i, s in x] != want:
                        ck.violation("recommend/wide", f"{nu} users, {ni} items, cutoff {cutoff}, user {u} ({name}): got {x[:3]}.. ({len(x)}), should be {want[:3]}.. ({len(want)})")
        # long profiles
        n = min(ni, 400)
        prof = [rng.sample(iid, n), {i: float(k % 5 + 1) for k, i in enumerate(rng.sample(iid, n))}, rng.sample(iid, n - 1) + ["unknown"]]
        M = m.list_of_user_profile_to_matrix(prof)
        ck.traces += 1
        for k, p in enumerate(prof):
            want = {(i - 1) // 3: (p[i] if isinstance(p, dict) else 1.0) for i in p if i != "unknown"}
            row = M[k].tocoo()
            if dict(zip(row.col.tolist(), row.data.tolist())) != want or M.shape != (3, ni):
                ck.violation("recommend/profile", f"a profile of {len(p)} of {ni} items is not its row of the matrix")


def body(ck):
    irsload.load()
    ck.tlc("RecommendMC")
    ck.log("model checked")
    cases = rejections(ck)
    for q in range(ck.pick(1500, 15000)):
        cases += one(ck, q)
    ck.count("recommendation_lists", len(cases))
    bad = ck.judge("RecommendTrace", cases)
    for c in cases:
        if c["id"] in bad:
            ck.violation(f"recommend/{c['how']}/{bad[c['id']][0][:20]}", "; ".join(bad[c["id"]]), c)
    ck.sample(cases[-1])
    logs = [log_matrix(ck, q) for q in range(ck.pick(600, 6000))] + [profiles(ck, q) for q in range(ck.pick(300, 3000))]
    ck.count("log_matrices", len(logs))
    bad = ck.judge("LogMatrix", logs)
    for c in logs:
        if c["id"] in bad:
            ck.violation(f"matrix/{bad[c['id']][0][:20]}", "; ".join(bad[c["id"]]), c)
    wide_logs(ck)
    wide_tables(ck)
    ck.assumptions = ["scores are not NaN; profile ratings are non-zero"]


def main():
    run("C11", body)
