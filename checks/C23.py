"""C23: native results do not depend on how workers share and interleave."""
import numpy as np
import pandas as pd
import scipy.sparse as sps

import sched
from vlib import call, run


def log_matrix(g, nu, ni, p=.4, dt=np.float64):
    X = (g.random_sample((nu, ni)) < p) * g.randint(1, 4, (nu, ni))
    X[:, 0][X.sum(1) == 0] = 1
    return sps.csr_matrix(X.astype(dt))


def flat(v):
    """Any result as {label: array}."""
    if isinstance(v, dict):
        return {f"{k}{s}": a for k, x in v.items() for s, a in flat(x).items()}
    if sps.issparse(v):
        return {"": v.toarray().astype(float)}
    if isinstance(v, (list, tuple)):
        out = {"#": np.array([len(v)])}
        for k, x in enumerate(v):
            out.update({f"[{k}]{s}": a for s, a in flat(x).items()})
        return out
    return {"": np.asarray(v, dtype=float)}


def operations(g, blocks):
    """name -> (f(n_threads), tolerance), on data of about that many blocks;
    a third entry gives the same result put together from one row at a time"""
    import irspack.recommenders as R
    from irspack.evaluation import Evaluator
    from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df
    from irspack.recommenders import _knn
    from irspack.recommenders.base import BaseRecommender
    from irspack.utils import IDMapper, ItemIDMapper, sparse_mm_threaded
    ops = {}
    short = g.randint(0, 16)                    # the last block need not be full
    n16 = max(1, 16 * blocks - short)
    nr = max(1, blocks)

    L, Rt = sps.csr_matrix(g.randint(-3, 4, (n16, 5)).astype(float)), sps.csc_matrix(g.randint(-3, 4, (5, 4)).astype(float))
    ops["sparse_mm_threaded"] = (lambda n: sparse_mm_threaded(L, Rt, n), 0, lambda: L.toarray() @ Rt.toarray())

    ns = max(2, 4 * blocks - short % 4)
    XS = log_matrix(g, 7, ns)
    for k in (-1, 2):
        for pos in (True, False):
            ops[f"SLIM positive_only={pos} top_k={k}"] = (lambda n, k=k, pos=pos: R.SLIMRecommender(
                XS, alpha=.05, positive_only=pos, n_iter=5, n_threads=n, **({} if k < 0 else dict(top_k=k))).learn().W, 1e-5)

    ni = 7
    for dt in (np.float64, np.float32):
        S = g.permutation(nr * ni).reshape(nr, ni).astype(dt)
        S[g.random_sample(S.shape) < .15] = -np.inf
        users, items = [f"u{u}" for u in range(nr)], [f"i{i}" for i in range(ni)]
        m = IDMapper(users, items)
        allowed = [[f"i{i}" for i in g.permutation(ni)[:4]] for _ in users]
        for lab, kw in (("", {}), (" allowed", dict(allowed_item_ids=allowed[0])), (" per user", dict(per_user_allowed_item_ids=allowed))):
            def lists(n, S=S, kw=kw, m=m):
                return [[(float(i[1:]), s) for i, s in row] for row in ItemIDMapper(m.item_ids).score_to_recommended_items_batch(S, cutoff=3, n_threads=n, **kw)]

            def each(lists=lists, S=S, kw=kw):
                one = lambda r: {k: v[r:r + 1] if k.startswith("per_user") else v for k, v in kw.items()}
                return [lists(1, S[r:r + 1], one(r))[0] for r in range(nr)]
            ops[f"recommendation lists {np.dtype(dt).name}{lab}"] = (lists, 0, each)
        gt = sps.csr_matrix((g.random_sample((nr, ni)) < .4).astype(float))
        for lab, kw in (("", {}), (" recommendable", dict(recommendable_items=list(range(1, ni)))),
                        (" per user", dict(per_user_recommendable_items=[[int(i) for i in g.permutation(ni)[:5]] for _ in range(nr)]))):
            def metrics(n, S=S, gt=gt, kw=kw):
                e = Evaluator(gt, cutoff=3, n_threads=n, masked_interactions=None, **kw)

                class Rec(BaseRecommender, register_class=False):
                    def get_score_block(self, b, e_): return np.array(S[b:e_])
                    def get_score(self, u): return np.array(S[u])
                    def learn(self): return self
                    def _learn(self): pass
                return e.get_scores(Rec(sps.csr_matrix(S.shape)), [1, 3, 5])
            ops[f"metrics {np.dtype(dt).name}{lab}"] = (metrics, 1e-9)

    rec_df = pd.DataFrame([dict(u=f"u{u}", i=f"i{i}") for u in range(nr) for i in g.permutation(ni)[:4]])
    gt_df = pd.DataFrame([dict(u=f"u{u}", i=f"i{i}") for u in range(nr) for i in g.permutation(ni)[:3]])
    ops["table evaluation"] = (lambda n: evaluate_recommendation_df(rec_df, gt_df, "u", "i", n_threads=n), 1e-9)

    XK, T = log_matrix(g, nr + 2, 6), log_matrix(g, nr, 6)
    X1 = sps.csr_matrix((XK != 0).astype(float))
    for name, args, A in (("CosineSimilarityComputer", (1.0, True), XK), ("JaccardSimilarityComputer", (.5,), X1), ("TverskyIndexComputer", (.5, .3, .7), X1),
                          ("AsymmetricSimilarityComputer", (.5, .3), X1), ("P3alphaComputer", (.7,), XK), ("RP3betaComputer", (.7, .3), XK)):
        if not hasattr(_knn, name):
            continue
        cls = getattr(_knn, name)
        chunk = int(g.choice([1, 2, 128]))
        if name.startswith(("P3", "RP3")):
            ops[f"{name} chunk {chunk}"] = (lambda n, cls=cls, args=args, A=A, chunk=chunk: cls(A, *args, n, chunk).compute_W(A, 2), 1e-12)
        else:
            B = T if A is XK else sps.csr_matrix((T != 0).astype(float))
            ops[f"{name} chunk {chunk}"] = (lambda n, cls=cls, args=args, A=A, B=B, chunk=chunk: cls(A, *args, n, chunk).compute_similarity(B, 2), 1e-12,
                                               lambda cls=cls, args=args, A=A, B=B: sps.vstack([cls(A, *args, 1).compute_similarity(B[r], 2) for r in range(B.shape[0])]))
    for name, kw in (("CosineKNNRecommender", {}), ("AsymmetricCosineUserKNNRecommender", {}), ("RP3betaRecommender", dict(normalize_weight=True)), ("TverskyIndexKNNRecommender", {})):
        ops[name] = (lambda n, name=name, kw=kw: getattr(R, name)(XK, n_threads=n, **kw).learn().get_score(np.arange(XK.shape[0])), 1e-9)

    # implicit ALS: training, prediction for unseen rows, loss, scores
    XI = log_matrix(g, nr + 1, nr + 2, dt=np.float32)
    XP = log_matrix(g, n16, 20, p=.2, dt=np.float32)
    UF, IF = log_matrix(g, nr + 1, 3, dt=np.float32), log_matrix(g, nr + 2, 2, dt=np.float32)
    for sol in ("CG", "CHOLESKY", "IALSPP"):
        for loss in ("IALSPP", "ORIGINAL"):
            def train(n, X=XI, sol=sol, loss=loss, **kw):
                r = R.IALSRecommender(X, n_components=3, alpha0=.3, reg=.2, nu=1.0, solver_type=sol, loss_type=loss, train_epochs=2, n_threads=n,
                                      max_cg_steps=4, prediction_time_max_cg_steps=4, ialspp_subspace_dimension=2, prediction_time_ialspp_iteration=2, **kw).learn()
                c = r.trainer_as_ials.core_trainer
                out = {"user": c.user, "item": c.item, "loss": r.compute_loss() if hasattr(r, "compute_loss") else r.trainer_as_ials.compute_loss(),
                       "block": r.get_score_block(0, X.shape[0]), "cold": r.compute_user_embedding(X), "item cold": r.compute_item_embedding(X)}
                if kw:
                    out["uw"], out["iw"] = c.user_feature_weight, c.item_feature_weight
                return out
            ops[f"iALS {sol} {loss}"] = (train, 2e-3)
            if sol != "IALSPP":
                ops[f"iALS {sol} {loss} features"] = (lambda n, train=train: train(n, user_features=UF, item_features=IF, lambda_user_feature=.5, lambda_item_feature=.5, feature_warmup_epochs=0), 2e-3)
    def many(n):
        r = R.IALSRecommender(XI, n_components=20, alpha0=.3, reg=.5, solver_type="CHOLESKY", train_epochs=2, n_threads=n, user_features=UF, item_features=IF,
                              lambda_user_feature=.5, lambda_item_feature=.5).learn()
        c = r.trainer_as_ials.core_trainer
        return {"uw": c.user_feature_weight, "iw": c.item_feature_weight, "scores": r.get_score_block(0, XI.shape[0])}
    ops["iALS features of 20 factors"] = (many, 2e-3)
    ops["iALS long"] = (lambda n: R.IALSRecommender(XP, n_components=2, alpha0=.3, reg=.2, train_epochs=1, n_threads=n).learn().get_score_block(0, n16), 2e-3)
    return ops


def differs(a, b, tol):
    if a[0] != b[0]:
        return f"{a[1:]} instead of {b[1:] if b[0] == 'err' else 'a result'}"
    if a[0] == "err":
        return None
    A, B = flat(a[1]), flat(b[1])
    if set(A) != set(B):
        return f"other parts: {sorted(set(A) ^ set(B))[:4]}"
    for k in B:
        if A[k].shape != B[k].shape:
            return f"{k}: shape {A[k].shape} instead of {B[k].shape}"
        with np.errstate(all="ignore"):
            ok = (A[k] == B[k]) | (np.isnan(A[k]) & np.isnan(B[k])) | (np.abs(A[k] - B[k]) <= tol * np.maximum(1, np.abs(B[k]).max(initial=0, where=np.isfinite(B[k]))))
        if not ok.all():
            return f"{k}: {A[k][~ok][:3].tolist()} instead of {B[k][~ok][:3].tolist()}"


def body(ck):
    rng = ck.rng
    # the pool itself, over all interleavings
    for cfg in "ABCDE":
        r = ck.tlc("WorkerPoolMC", f"WorkerPoolMC{cfg}")
        ck.count("mc_states", r.distinct)
    ck.tlc("WorkerPool", "WorkerPoolLive")
    r = ck.tlc("WorkerPoolMC", "WorkerPoolFaulty", must_pass=False)
    if r.ok or "is violated" not in r.out:
        from vlib import MachineryError
        raise MachineryError("the faulty pool is not refuted")
    gen = {}
    for cfg, w in (("22", 2), ("23", 2), ("32", 3), ("33", 3), ("s3", 3)):
        gen[cfg] = [p["turns"] for p in ck.tlc("WorkerPoolGen", f"WorkerPoolGen{cfg}").prints]
        ck.count("behaviours", len(gen[cfg]))

    sched.load()
    from vlib import _tick
    regions = {}

    def scheduled(name, f, n, order, seed, base, tol, what):
        got, t = sched.under(order, n, lambda: call(f, n), seed=seed)
        ck.traces += 1
        ck.count("replays")
        ck.count("turns", t["points"])
        if any(g["order"][:len(order)] == list(order) for g in t["regions"]):
            ck.count("followed_exactly")
        for g in t["regions"]:
            ck.count("regions")
            key = (g["workers"], str(g["events"]))
            if key not in regions and (len(regions) < ck.pick(1500, 6000) or any(e[1] in "rw" for e in g["events"])):
                regions[key] = (name, what, g)
        d = differs(got, base, tol)
        if d:
            ck.violation("schedule", f"{name} with {n} workers, {what}: {d}", dict(order=t["regions"][0]["order"] if t["regions"] else []))
            return False
        return True

    bad = set()

    def single(name, f, tol, alone):
        """one worker, which has to process every row exactly once as well"""
        base = call(f, 1)
        if alone and base[0] == "ok" and name not in bad:
            ck.count("row_by_row")
            d = differs(base, call(alone[0]), tol)
            if d:
                ck.violation("single-worker", f"{name} with one worker, compared with one row at a time: {d}")
                bad.add(name)
        return base

    # replay of the model's behaviours
    for blocks, cfgs in ((2, ("22", "32")), (3, ("23", "33", "s3"))):
        for name, (f, tol, *alone) in operations(np.random.RandomState(rng.randrange(2 ** 31)), blocks).items():
            base = single(name, f, tol, alone)
            if base[0] == "err":
                ck.violation("failed", f"{name}: {base[1]}: {base[2]}")
                continue
            for cfg in cfgs:
                hs = gen[cfg]
                if not ck.thorough or len(hs) > 400:
                    hs = rng.sample(hs, min(len(hs), ck.pick(12, 400)))
                for order in hs:
                    if name in bad:
                        break
                    if not scheduled(name, f, int(cfg[0]) if cfg != "s3" else 3, order, rng.randrange(2 ** 31), base, tol, f"turns {order}"):
                        bad.add(name)
    # other numbers of workers, more than there are rows, random turns
    for blocks in ck.pick([1, 4, 7], [1, 2, 3, 4, 5, 7, 9, 13]):
        for name, (f, tol, *alone) in operations(np.random.RandomState(rng.randrange(2 ** 31)), blocks).items():
            if name in bad:
                continue
            base = single(name, f, tol, alone)
            for n in rng.sample([1, 2, 3, 4, 5, 8, 17], ck.pick(3, 7)):
                if not scheduled(name, f, n, [], rng.randrange(2 ** 31), base, tol, "random turns"):
                    bad.add(name)
                    break
    # free running, larger data, repeatedly
    for blocks in ck.pick([40], [40, 200]):
        for name, (f, tol, *alone) in operations(np.random.RandomState(rng.randrange(2 ** 31)), blocks).items():
            if name in bad:
                continue
            base = single(name, f, tol, alone)
            for n in rng.sample([2, 3, 4, 6, 7, 8, 16, 31], ck.pick(3, 8)):
                ck.count("free_runs")
                for again in (1, 2):
                    d = differs(call(f, n), base, tol)
                    if d:
                        ck.violation("thread-count", f"{name} with {n} threads on {blocks} blocks: {d}")
                        bad.add(name)
                        break
                if name in bad:
                    break
    # no workers at all
    for name, (f, tol, *_) in operations(np.random.RandomState(1), 2).items():
        r = call(f, 0)
        ck.count("zero_threads")
        if r[0] == "ok":
            ck.violation("zero-threads", f"{name} with 0 threads answers {str(flat(r[1]))[:200]}")
    # recorded regions against the specification
    cases, meta = [], {}
    for q, ((w, _), (name, what, g)) in enumerate(regions.items()):
        n = max([g["workers"]] + [e[0] + 1 for e in g["events"]])
        cases.append(dict(id=f"r{q}", workers=n, events=g["events"][:ck.pick(150, 400)]))
        meta[f"r{q}"] = (name, what)
    _tick(True)
    seen = set()
    for cid, why in ck.judge("WorkerTrace", cases).items():
        name, what = meta[cid]
        if name in seen:
            continue
        seen.add(name)
        ck.violation("race", f"{name}, {what}: {why}")
    ck.count("judged_regions", len(cases))
    ck.sample("behaviour [0,1,1,0,...]: worker 1 takes the second block before worker 0 has finished the first; the result equals that of one worker")
    ck.assumptions = ["workers are interleaved at atomic operations and locks; sharing between those points is judged by the recorded accesses",
                      "sums combined from the workers are compared up to rounding"]


def main():
    run("C23", body)
