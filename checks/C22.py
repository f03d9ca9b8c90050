"""C22: every recommender honours the common scoring interface."""
import inspect
import pickle

import numpy as np
import scipy.sparse as sps

import irsload
import standins
from vlib import call, run

# name -> (settings for small data, offers blocks, offers unseen users, unseen users agree, integer model, deterministic training, tolerance)
MODELS = {
    "TopPopRecommender": ({}, 0, 1, 1, "popularity", 1, 1e-9),
    "CosineKNNRecommender": (dict(normalize=False, n_threads=1), 1, 1, 1, "item", 1, 1e-9),
    "CosineUserKNNRecommender": (dict(normalize=False, n_threads=2), 1, 0, 0, "user", 1, 1e-9),
    "AsymmetricCosineKNNRecommender": (dict(alpha=.4, top_k=2, n_threads=1), 1, 1, 1, "other", 1, 1e-9),
    "AsymmetricCosineUserKNNRecommender": (dict(alpha=.4, n_threads=1), 1, 0, 0, "other", 1, 1e-9),
    "JaccardKNNRecommender": (dict(shrinkage=1.0, n_threads=1), 1, 1, 1, "other", 1, 1e-9),
    "TverskyIndexKNNRecommender": (dict(n_threads=1), 1, 1, 1, "other", 1, 1e-9),
    "P3alphaRecommender": (dict(n_threads=1), 1, 1, 1, "other", 1, 1e-9),
    "RP3betaRecommender": (dict(normalize_weight=True, n_threads=1), 1, 1, 1, "other", 1, 1e-9),
    "SLIMRecommender": (dict(n_threads=1), 1, 1, 1, "other", 1, 1e-6),
    "DenseSLIMRecommender": ({}, 1, 1, 1, "other", 1, 1e-5),
    "EDLAERecommender": ({}, 1, 1, 1, "other", 1, 1e-5),
    "IALSRecommender": (dict(n_components=2, alpha0=.3, reg=.1, train_epochs=2, n_threads=1), 1, 1, 0, "other", 1, 1e-4),
    "TruncatedSVDRecommender": (dict(n_components=2), 1, 1, 1, "other", 1, 1e-6),
    "NMFRecommender": (dict(n_components=2), 0, 1, 0, "other", 1, 1e-6),
    "BPRFMRecommender": (dict(n_components=3, train_epochs=2, n_threads=1), 1, 0, 0, "other", 1, 1e-5),
    "MultVAERecommender": (dict(dim_z=2, enc_hidden_dims=3, minibatch_size=2, train_epochs=2), 0, 1, 1, "other", 0, 1e-6),
}

# wrapped third-party models refuse to transform an empty batch
EMPTY_REFUSED = {"TruncatedSVDRecommender", "NMFRecommender", "MultVAERecommender"}


def matrix(rng, nu, ni):
    while True:
        X = np.array([[rng.choice([1, 1, 2, 3]) if rng.random() < .5 else 0 for _ in range(ni)] for _ in range(nu)])
        if X.any(0).sum() > 1 and X.any():
            return X


def stored(rng, X):
    """The same interactions in some accepted storage."""
    f, dt = rng.choice(["csr", "csr", "csc", "unsorted"]), rng.choice([np.float64, np.float64, np.float32, np.int64])
    if f == "csc":
        return sps.csc_matrix(X.astype(dt))
    S = sps.csr_matrix(X.astype(dt))
    if f == "unsorted":
        for r in range(S.shape[0]):
            a, b = S.indptr[r], S.indptr[r + 1]
            S.indices[a:b], S.data[a:b] = S.indices[a:b][::-1].copy(), S.data[a:b][::-1].copy()
        S.has_sorted_indices = False
    return S


def raw(S):
    if sps.issparse(S):
        return (S.shape, S.dtype, S.data.tobytes(), S.indices.tobytes(), S.indptr.tobytes())
    return (S.shape, S.dtype, S.tobytes())


def random_ops(rng, nu, block, cold):
    ops = []
    kinds = ["learn", "copy", "score", "score", "score_seen", "score_seen"] + (["block", "block_seen"] * 2 if block else []) + (["cold", "cold_seen"] * 2 if cold else [])
    if rng.random() < .85:
        ops.append(["learn", [], 0, 0])
    for _ in range(rng.randint(2, 7)):
        k = rng.choice(kinds)
        us, b, e = [], 0, 0
        if k in ("score", "score_seen", "cold", "cold_seen"):
            us = [rng.randint(1, nu) for _ in range(rng.choice([0, 1, 2, 5]))]
        elif k in ("block", "block_seen"):
            b = rng.randint(0, nu)
            e = rng.randint(b, nu)
        ops.append([k, us, b, e])
    return ops


def do(rec, op, X, rng):
    """-> (rec, result, arguments that must stay as they were)"""
    k, us, b, e = op
    idx = np.array([u - 1 for u in us], dtype=rng.choice([np.int64, np.int32]))
    if k == "learn":
        r = call(rec.learn)
        if r[0] == "ok" and r[1] is not rec:
            r = ("err", "NotItself", "learn() does not return the recommender")
        return rec, r, []
    if k == "copy":
        r = call(lambda: pickle.loads(pickle.dumps(rec)))
        return (r[1] if r[0] == "ok" else rec), r, []
    if k in ("score", "score_seen"):
        return rec, call(rec.get_score if k == "score" else rec.get_score_remove_seen, idx), [(idx, idx.copy())]
    if k in ("block", "block_seen"):
        return rec, call(rec.get_score_block if k == "block" else rec.get_score_remove_seen_block, b, e), []
    H = sps.csr_matrix(X[idx].astype(rng.choice([np.float64, np.float32, np.int64]))) if rng.random() < .7 else sps.csc_matrix(X[idx].astype(float))
    return rec, call(rec.get_score_cold_user if k == "cold" else rec.get_score_cold_user_remove_seen, H), [(H, H.copy())]


def histories(ck, per_class):
    import irspack.recommenders as R
    rng = ck.rng
    cases, meta = [], {}
    for name, (kw, block, cold, agree, model, det, tol) in MODELS.items():
        for q in range(per_class):
            nu, ni = rng.randint(1, 6), rng.randint(2, 6)
            X = matrix(rng, nu, ni)
            if name == "NMFRecommender":        # sklearn's initialisation divides by zero on some matrices with empty rows
                while not (X.any(0).all() and X.any(1).all()):
                    X = matrix(rng, nu, ni)
            cid = f"{name}.{q}"
            cases.append(dict(id=cid, X=X.tolist(), ni=ni, det=bool(det), block=bool(block), cold=bool(cold), agree=bool(agree), model=model, ops=random_ops(rng, nu, block, cold)))
            meta[cid] = (name, X)
    ans = ck.expect("Recommender", cases)
    for c in cases:
        name, X = meta[c["id"]]
        replay(ck, R, name, X, c["ops"], ans[c["id"]])


def replay(ck, R, name, X, ops, a):
    rng = ck.rng
    kw, block, cold, agree, model, det, tol = MODELS[name]
    kw = dict(kw)
    if name == "TruncatedSVDRecommender":
        kw["n_components"] = min(2, X.shape[1] - 1)
    cls = getattr(R, name)
    S = stored(rng, X)
    before = raw(S)
    tag = f"{name} on {X.tolist()} after {[o[0] for o in ops]}"
    try:
        rec = cls(S, **kw)
    except Exception as e:
        ck.violation("failed", f"{tag}: {type(e).__name__}: {e}")
        return
    known = {}
    if model != "other":
        known = {(1, u + 1, True): np.array(r, dtype=float) for u, r in enumerate(a["table"])}
    elif det:           # an independent instance on the canonical matrix
        ref = call(lambda: np.asarray(cls(sps.csr_matrix(X.astype(float)), **kw).learn().get_score(np.arange(len(X)))))
        if ref[0] == "ok":
            known = {(1, u + 1, True): r for u, r in enumerate(ref[1])}
    for n, (op, want) in enumerate(zip(ops, a["outs"])):
        rec, got, kept = do(rec, op, X, rng)
        ck.count("requests")
        where = f"{tag} step {n + 1} {op}"
        if raw(S) != before:
            ck.violation("input-changed", f"{where}: the caller's training data was modified")
            return
        for now, was in kept:
            if (now != was).sum() if sps.issparse(now) else not np.array_equal(now, was):
                ck.violation("input-changed", f"{where}: an argument was modified")
                return
        if want["kind"] == "refused":
            ck.count("refused")
            if got[0] == "ok":
                ck.violation("before-training", f"{where}: answered before training")
                return
            continue
        if got[0] == "err" and want["kind"] == "rows" and not want["rows"] and name in EMPTY_REFUSED:
            continue
        if got[0] == "err":
            ck.violation("failed", f"{where}: {got[1]}: {got[2]}")
            return
        if want["kind"] == "done":
            continue
        M, rows = got[1], want["rows"]
        if sps.issparse(M) or isinstance(M, np.matrix):
            ck.violation("shape", f"{where}: not a dense array but {type(M).__name__}")
            return
        if M.shape != (len(rows), X.shape[1]):
            ck.violation("shape", f"{where}: shape {M.shape} instead of {(len(rows), X.shape[1])}")
            return
        for r, g in zip(rows, M):
            g = np.asarray(g, dtype=float)
            masked = {i for i in range(len(g)) if g[i] == -np.inf}
            if masked != {i - 1 for i in r["mask"]}:
                ck.violation("mask", f"{where}: user {r['u'] - 1} masked at {sorted(masked)}, seen {[i - 1 for i in r['mask']]}")
                return
            key = (r["t"], r["u"], r["own"])
            if name == "NMFRecommender" and op[0].startswith("cold"):   # sklearn's transform iterates until the whole batch has converged
                key += (tuple(op[1]),)
            free = [i for i in range(len(g)) if i not in masked]
            if not np.isfinite(g[free]).all():
                ck.violation("not-finite", f"{where}: scores {g.tolist()}")
                return
            old = known.setdefault(key, np.full(len(g), np.nan))
            o = old[free]
            fresh = np.isnan(o)
            if not np.all(np.abs(o[~fresh] - g[free][~fresh]) <= tol * np.maximum(1, np.abs(o[~fresh]).max(initial=0))):
                ck.violation("disagree", f"{where}: user {r['u'] - 1} scored {g.tolist()}, before or elsewhere {old.tolist()}")
                return
            old[np.array(free, dtype=int)[fresh]] = g[free][fresh]
        if op[0] in ("score", "block"):
            rec, again, _ = do(rec, op, X, rng)
            if again[0] == "err" or not np.array_equal(again[1], M):
                ck.violation("repeat", f"{where}: the same request gives another answer")
                return
    ck.traces += 1
    ck.count("histories")


def enumerated(ck, per_class):
    """Replay of histories from the exhaustively explored model."""
    import irspack.recommenders as R
    rng = ck.rng
    r = ck.tlc("Recommender", "RecommenderMC")
    ck.count("mc_states", r.distinct)
    # the operations of RecommenderMC, all pairs after a training
    X = np.array([[1, 0, 2], [0, 1, 1]])
    sub, blk = [[], [1], [2], [2, 1], [1, 1]], [(0, 0), (0, 1), (1, 2), (0, 2)]
    cases = []
    for name, (kw, block, cold, agree, model, det, tol) in MODELS.items():
        if name == "TruncatedSVDRecommender" or name == "NMFRecommender":
            continue
        ops = [["copy", [], 0, 0], ["learn", [], 0, 0]] + [[k, u, 0, 0] for k in ["score", "score_seen"] + (["cold", "cold_seen"] if cold else []) for u in sub]
        if block:
            ops += [[k, [], b, e] for k in ("block", "block_seen") for b, e in blk]
        pairs = [[a, b] for a in ops for b in ops]
        for q, p in enumerate(rng.sample(pairs, min(per_class, len(pairs)))):
            cases.append(dict(id=f"{name}.e{q}", X=X.tolist(), ni=3, det=bool(det), block=bool(block), cold=bool(cold), agree=bool(agree), model=model, ops=[["learn", [], 0, 0]] + p))
    ans = ck.expect("Recommender", cases)
    for c in cases:
        replay(ck, R, c["id"].split(".")[0], X, c["ops"], ans[c["id"]])


ALTERNATIVES = dict(
    shrinkage=[0.5, 2.0], top_k=[1, 2], n_threads=[1, 2], normalize=[True, False], alpha=[.25, .75], beta=[.25, .75], feature_weighting=["TF_IDF", "BM_25"],
    bm25_k1=[.7], bm25_b=[.3], normalize_weight=[True], l1_ratio=[.5], positive_only=[False], n_iter=[3], tol=[1e-2], reg=[2.5], dropout_p=[.3],
    n_components=[1, 2], random_seed=[3], random_state=[3], init=["random"], alpha0=[.5, .1], nu=[.5], confidence_scaling=["log"], epsilon=[2.0], init_std=[.2],
    solver_type=["CHOLESKY", "IALSPP"], max_cg_steps=[1], loss_type=["ORIGINAL"], nu_star=[.5], train_epochs=[1, 3], prediction_time_max_cg_steps=[2],
    ialspp_subspace_dimension=[1], prediction_time_ialspp_iteration=[2], lambda_user_feature=[.5], lambda_item_feature=[.5], feature_warmup_epochs=[1],
    item_alpha=[1e-3], user_alpha=[1e-3], loss=["warp"], dim_z=[2], enc_hidden_dims=[3], dec_hidden_dims=[4], l2_regularizer=[.1], kl_anneal_goal=[.4],
    anneal_end_epoch=[3], minibatch_size=[2], learning_rate=[.1])
NOT_CONFIGURABLE = {"user_features", "item_features"}      # data, not settings


def settings_of(cls):
    ps = list(inspect.signature(cls.__init__).parameters.values())[2:]
    return [(p.name, p.default) for p in ps if p.kind != p.VAR_KEYWORD and p.name not in NOT_CONFIGURABLE]


def plain(v):
    return v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)


def configurations(ck, per_class):
    import irspack.recommenders as R
    rng = ck.rng
    X = sps.csr_matrix(matrix(rng, 5, 4).astype(float))
    cases, meta = [], {}
    for name in MODELS:
        cls = getattr(R, name)
        ds = settings_of(cls)
        vals = {}
        for q in range(per_class):
            given = {n: rng.choice(ALTERNATIVES[n]) for n, _ in ds if n in ALTERNATIVES and rng.random() < .4} if q else {}
            if rng.random() < .15:
                given[rng.choice(["unknown_setting", "topk", "X_train_all", "Reg"])] = 1
            other = rng.choice(list(MODELS)) if rng.random() < .2 else name
            base = ds if other == name else settings_of(getattr(R, other))
            if other != name:
                given = {}
            enc = lambda v: vals.setdefault(repr(v), v) is None and repr(v) or repr(v)
            cid = f"{name}.c{q}"
            cases.append(dict(id=cid, model=name, config_of=other, defaults=[[n, enc(d)] for n, d in base], given=[[n, enc(v)] for n, v in given.items()]))
            meta[cid] = (cls, getattr(R, other), given, vals)
    for cid, a in ck.expect("Config", cases).items():
        cls, other, given, vals = meta[cid]
        cfg = call(other.config_class, **given)
        ck.traces += 1
        ck.count("configurations")
        if (cfg[0] == "err") != a["config"]["refused"]:
            ck.violation("config", f"{other.config_class.__name__}({given}) is {'refused: ' + cfg[2] if cfg[0] == 'err' else 'accepted'}")
            continue
        if cfg[0] == "err":
            ck.count("config_refused")
            continue
        rec = call(cls.from_config, X, cfg[1])
        if (rec[0] == "err") != a["built"]["refused"]:
            ck.violation("config", f"{cls.__name__}.from_config({other.config_class.__name__}({given})) is {'refused: ' + rec[2] if rec[0] == 'err' else 'accepted'}")
            continue
        if rec[0] == "err":
            ck.count("config_refused")
            continue
        direct = cls(X, **{n: vals[v] for n, v in a["built"]["settings"]})
        A, B = ({k: plain(v) for k, v in vars(r).items() if k not in ("X_train_all", "_X_csc")} for r in (rec[1], direct))
        if A != B:
            ck.violation("config", f"{cls.__name__} from configuration {given}: {[(k, A.get(k), B.get(k)) for k in set(A) | set(B) if A.get(k) != B.get(k)]} (built from configuration / from its fields)")
            continue
        if MODELS[cls.__name__][5] and (rng.random() < .4) and vars(direct).get("train_epochs", 1) < 100:
            r1, r2 = call(lambda: np.asarray(rec[1].learn().get_score(np.arange(5)))), call(lambda: np.asarray(direct.learn().get_score(np.arange(5))))
            ck.count("config_trained")
            if r1[0] != r2[0] or r1[0] == "ok" and not np.allclose(r1[1], r2[1], rtol=1e-4, atol=1e-5, equal_nan=True):
                ck.violation("config", f"{cls.__name__} from configuration {given} scores differently than from its fields")


def registry(ck):
    import irspack.recommenders as R
    from irspack.recommenders.base import BaseRecommender
    for name in R.__all__:
        if name.endswith("Recommender"):
            ck.count("registry")
            r = call(R.get_recommender_class, name)
            if r[0] == "err" or r[1] is not getattr(R, name):
                ck.violation("registry", f"get_recommender_class({name!r}) is {r[1:]}")
    missing = [m for m in MODELS if m not in R.__all__]
    if missing:
        ck.violation("registry", f"not exported: {missing}")
    if call(R.get_recommender_class, "NoSuchRecommender")[0] != "err":
        ck.violation("registry", "an unknown name is found")

    class VerifOwnRecommender(BaseRecommender):
        pass

    class VerifHiddenRecommender(BaseRecommender, register_class=False):
        pass
    if call(R.get_recommender_class, "VerifOwnRecommender")[1] is not VerifOwnRecommender:
        ck.violation("registry", "a user-defined recommender is not found by its name")
    if call(R.get_recommender_class, "VerifHiddenRecommender")[0] != "err":
        ck.violation("registry", "a recommender excluded from registration is found")


def epochs(ck, n):
    """The minibatch trainer sees every user once per epoch; wrapped trainers
    run the configured number of epochs; embeddings explain the scores."""
    import irspack.recommenders as R
    rng = ck.rng
    for q in range(n):
        nu, mb, ep = rng.randint(1, 9), rng.randint(1, 5), rng.randint(1, 3)
        X = np.zeros((nu, 12))
        for u in range(nu):
            X[u, u], X[u, 10] = u + 1, 1
        standins.seen_batches.clear()
        rec = R.MultVAERecommender(sps.csr_matrix(X), dim_z=2, enc_hidden_dims=3, minibatch_size=mb, train_epochs=ep).learn()
        rows = np.concatenate(standins.seen_batches) if standins.seen_batches else np.zeros((0, 12))
        ck.count("vae_runs")
        ids = rows.max(axis=1)
        per = [sorted(ids[z * nu:(z + 1) * nu]) for z in range(ep)]
        if len(rows) != nu * ep or any(p != list(range(1, nu + 1)) for p in per):
            ck.violation("epoch", f"{ep} epochs of {nu} users in minibatches of {mb} trained on users {[int(i) - 1 for i in ids]}")
        fm = R.BPRFMRecommender(sps.csr_matrix(X), n_components=3, train_epochs=ep, n_threads=1).learn()
        if fm.fm.epochs != ep:
            ck.violation("epoch", f"BPRFM ran {fm.fm.epochs} epochs instead of {ep}")
        us = np.array([rng.randrange(nu) for _ in range(3)])
        ok = (np.allclose(fm.get_score_from_user_embedding(fm.get_user_embedding()), fm.get_score_block(0, nu), atol=1e-5)
              and np.allclose(fm.get_score_from_item_embedding(us, fm.get_item_embedding()) + fm.fm.item_biases, fm.get_score(us), atol=1e-5))
        svd = R.TruncatedSVDRecommender(sps.csr_matrix(X), n_components=2).learn()
        ok2 = (np.allclose(svd.get_score_from_user_embedding(svd.get_user_embedding()), svd.get_score_block(0, nu), atol=1e-6)
               and np.allclose(svd.get_score_from_item_embedding(us, svd.get_item_embedding()), svd.get_score(us), atol=1e-6)) if nu > 2 else True
        ck.count("embeddings")
        for m, o in (("BPRFM", ok), ("TruncatedSVD", ok2)):
            if not o:
                ck.violation("embedding", f"{m}: scores from the embeddings are not the scores")


def wrapped(ck, n):
    """A model of another library scores as that library does with the same settings."""
    import irspack.recommenders as R
    from sklearn.decomposition import NMF, TruncatedSVD
    from lightfm import LightFM
    rng = ck.rng
    for q in range(n):
        # on a large matrix the random projection of the SVD shows
        nu, ni = (rng.randint(3, 9), rng.randint(3, 8)) if q else (90, 70)
        X = matrix(rng, nu, ni)
        X[:, 0], X[range(nu), [u % ni for u in range(nu)]] = 1, 2
        for i in range(ni):
            X[i % nu, i] = 1
        Xs = sps.csr_matrix(X.astype(float))
        H = sps.csr_matrix(matrix(rng, 2, ni).astype(float))
        us = np.array([rng.randrange(nu) for _ in range(4)])

        def svd():
            k, seed = rng.randint(1, ni + 2), rng.choice([0, 0, 3])
            if ni > 60:
                k, seed = 2, 0
            kw = dict(n_components=k) if seed == 0 else dict(n_components=k, random_seed=seed)
            if k == 4 and rng.random() < .5:
                kw.pop("n_components")
            t = TruncatedSVD(n_components=min(k, ni - 1), random_state=seed)
            z = t.fit_transform(Xs)
            m = R.TruncatedSVDRecommender(Xs, **kw).learn()
            return kw, [(m.get_score(us), z[us] @ t.components_), (m.get_score_cold_user(H), t.transform(H) @ t.components_)]

        def nmf():
            full = dict(n_components=rng.choice([1, 2, 3, 64]), alpha=rng.choice([1e-2, 1e-4, 1e-6, .05]), l1_ratio=rng.choice([1e-2, 0.0, .5, 1.0]),
                        beta_loss="frobenius", init=rng.choice([None, "nndsvda", "random"]))
            if full["n_components"] > min(nu, ni):
                full["init"] = rng.choice([None, "random"])
            kw = {k: v for k, v in full.items() if v != dict(n_components=64, alpha=1e-2, l1_ratio=1e-2, beta_loss="frobenius", init=None)[k] or rng.random() < .3}
            t = NMF(n_components=full["n_components"], alpha_W=full["alpha"], l1_ratio=full["l1_ratio"], init=full["init"], random_state=42)
            W = t.fit_transform(Xs)
            m = R.NMFRecommender(Xs, **kw).learn()
            return kw, [(m.get_score(us), W[us] @ t.components_), (m.get_score_cold_user(H), t.transform(H) @ t.components_)]

        def fm():
            full = dict(n_components=rng.choice([2, 3, 128]), item_alpha=rng.choice([1e-9, 1e-3, .5]), user_alpha=rng.choice([1e-9, 2e-3]),
                        loss=rng.choice(["bpr", "warp"]), train_epochs=rng.choice([1, 2, 128]))
            kw = {k: v for k, v in full.items() if v != dict(n_components=128, item_alpha=1e-9, user_alpha=1e-9, loss="bpr", train_epochs=128)[k] or rng.random() < .3}
            th = rng.randint(1, 4)
            t = LightFM(no_components=full["n_components"], item_alpha=full["item_alpha"], user_alpha=full["user_alpha"], loss=full["loss"])
            for _ in range(full["train_epochs"]):
                t.fit_partial(Xs.tocoo(), num_threads=th)
            m = R.BPRFMRecommender(Xs, n_threads=th, **kw).learn()
            S = t.user_embeddings[us] @ t.item_embeddings.T + t.item_biases
            return kw, [(m.get_score(us), S), (np.array([m.fm.threads, m.fm.epochs]), np.array([th, full["train_epochs"]]))]
        for name, f in (("TruncatedSVD", svd), ("NMF", nmf), ("BPRFM", fm)):
            r = call(f)
            ck.traces += 1
            ck.count("wrapped")
            if r[0] == "err":
                ck.violation("wrapped", f"{name} on {X.tolist()}: {r[1]}: {r[2]}"[:400])
                continue
            for got, want in r[1][1]:
                if got.shape != want.shape or not np.allclose(got, want, rtol=1e-4, atol=1e-5):
                    ck.violation("wrapped", f"{name} {r[1][0]} on {X.tolist()}: scores {got.tolist()} instead of {want.tolist()}"[:600])
                    break
    for bad in ("logistic", "warp-kos", ""):
        if call(R.BPRFMRecommender, Xs, loss=bad)[0] != "err":
            ck.violation("wrapped", f"BPRFM accepts the loss {bad!r}")


def body(ck):
    standins.install()
    irsload.load()
    histories(ck, ck.pick(25, 150))
    enumerated(ck, ck.pick(20, 200))
    configurations(ck, ck.pick(12, 80))
    epochs(ck, ck.pick(12, 60))
    wrapped(ck, ck.pick(40, 300))
    registry(ck)
    ck.sample("get_score([2,0]) after copy and relearn has the rows of users 2 and 0; get_score_remove_seen is -inf exactly at seen items")
    ck.assumptions = ["lightfm, jax, haiku and optax are not installed: their wrappers run on deterministic stand-ins (lib/standins.py)",
                      "rows from different requests agree up to rounding of the linear algebra library"]


def main():
    run("C22", body)
