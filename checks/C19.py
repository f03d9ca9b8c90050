"""C19: neighbourhood and random-walk models hold exactly the defined top-k similarities."""
import itertools
import math

import numpy as np
import scipy.sparse as sps

import irsload
from vlib import call, run

EPS = 1e-6


def value(kind, n, q, r):
    if kind == "walk":
        return n / r
    d = math.sqrt(q) + r / 4
    return n / (d if kind == "dot" else d + EPS)


def squares(M):
    return all(math.isqrt(int(v @ v)) ** 2 == v @ v for v in M)


def matrix(rng, nu, ni, vals):
    p = rng.choice([.3, .5, .8])
    return np.array([[rng.choice(vals) if rng.random() < p else 0 for _ in range(ni)] for _ in range(nu)])


def square_rows(rng, n, nf):
    """rows whose norms are integers"""
    out = []
    for _ in range(n):
        v = rng.choice([[1], [1, 1, 1, 1], [2], [3], [3, 4], [2, 2, 1], [2, 2, 2, 2], [1, 1, 1, 1], [0]])
        if len(v) > nf:
            v = [1]
        v = v + [0] * (nf - len(v))
        rng.shuffle(v)
        out.append(v)
    return np.array(out)


class Runner:
    def __init__(self, ck):
        self.ck, self.cases, self.meta = ck, [], {}
        import irspack.recommenders as R
        import irspack.recommenders._knn as K
        self.R, self.K = R, K

    def build(self, kind, side, X, par):
        R, th = self.R, par["threads"]
        kw = dict(top_k=par["k"], n_threads=th)
        fw = {}
        if par.get("fw"):
            fw = dict(feature_weighting=par["fw"])
            if par["fw"] == "BM_25":
                fw.update(bm25_k1=par["k1"], bm25_b=par["b"])
        s = par["s"] / 4
        if kind in ("dot", "cosine"):
            C = R.CosineKNNRecommender if side == "item" else R.CosineUserKNNRecommender
            return C(X, shrinkage=s, normalize=(kind == "cosine"), **kw, **fw)
        if kind == "asym":
            C = R.AsymmetricCosineKNNRecommender if side == "item" else R.AsymmetricCosineUserKNNRecommender
            return C(X, shrinkage=s, alpha=par["al"] / 4, **kw, **fw)
        if kind == "jaccard":
            return R.JaccardKNNRecommender(X, shrinkage=s, **kw)
        if kind == "tversky":
            return R.TverskyIndexKNNRecommender(X, shrinkage=s, alpha=par["al"] / 4, beta=par["be"] / 4, **kw)
        kw = dict(kw, alpha=par["al"], normalize_weight=par["norm"])
        if par["nonek"]:
            kw["top_k"] = None
        return R.P3alphaRecommender(X, **kw) if par["p3"] else R.RP3betaRecommender(X, beta=par["be"], **kw)

    def computer(self, kind, X, par, chunk):
        K, th, s = self.K, par["threads"], par["s"] / 4
        X = sps.csr_matrix(X.astype(float))
        if kind in ("dot", "cosine"):
            return K.CosineSimilarityComputer(X, s, kind == "cosine", th, chunk)
        if kind == "asym":
            return K.AsymmetricSimilarityComputer(X, s, par["al"] / 4, th, chunk)
        if kind == "jaccard":
            return K.JaccardSimilarityComputer(X, s, th, chunk)
        if kind == "tversky":
            return K.TverskyIndexComputer(X, s, par["al"] / 4, par["be"] / 4, th, chunk)
        if par["p3"]:
            return K.P3alphaComputer(X, par["al"], th, chunk)
        return K.RP3betaComputer(X, par["al"], par["be"], th, chunk)


def exact_walk(T, al):
    """no rounding anywhere: every sum is a power of two and at most two terms meet"""
    T = np.where(T > 0, T.astype(float) ** al, 0)
    p2 = lambda v: v == 0 or math.log2(v).is_integer()
    return all(p2(v) for v in T.sum(0)) and all(p2(v) for v in T.sum(1))


def separated(kind, T, X, par):
    """the tiny constant must not decide between values the model tells apart"""
    if kind not in ("cosine", "asym"):
        return True
    T, X = T.astype(float), X.astype(float)
    a, b = (T ** 2).sum(1), (X ** 2).sum(1)
    al = .5 if kind == "cosine" else par["al"] / 4
    d = np.power(a, al)[:, None] * np.power(b, 1 - al)[None] + par["s"] / 4
    n = T @ X.T
    with np.errstate(all="ignore"):
        v0, v1 = n / d, n / (d + EPS)
    for i in range(len(T)):
        w = v0[i][n[i] > 0]
        e = v1[i][n[i] > 0]
        for p, q in itertools.combinations(range(len(w)), 2):
            if abs(w[p] - w[q]) > 1e-12 * abs(w[p]) and (w[p] - w[q]) * (e[p] - e[q]) <= 0:
                return False
            if abs(w[p] - w[q]) > 1e-12 * abs(w[p]) and abs(e[p] - e[q]) < 1e-9:
                return False
    return True


def sparse_rows(W):
    """per row the nonzero columns (1-based)"""
    W = sps.csr_matrix(W)
    W.sum_duplicates()
    out = []
    for i in range(W.shape[0]):
        idx = W.indices[W.indptr[i]:W.indptr[i + 1]]
        val = W.data[W.indptr[i]:W.indptr[i + 1]]
        out.append(sorted(int(j) + 1 for j, v in zip(idx, val) if v != 0))
    return out


def exact(ck, rn, n):
    rng = ck.rng
    small = list(itertools.product([0, 1], repeat=9))
    rng.shuffle(small)
    for q in range(n):
        kind = rng.choice(["dot", "cosine", "cosine", "asym", "asym", "jaccard", "tversky", "walk", "walk"])
        side = "item" if kind in ("jaccard", "tversky", "walk") else rng.choice(["item", "user"])
        par = dict(s=rng.choice([0, 0, 1, 4, 10]), al=0, be=0, threads=rng.choice([1, 1, 2, 3, 4, 7]), k=rng.choice([0, 1, 1, 2, 2, 3, 4, 100]),
                   p3=True, norm=False, nonek=False)
        if kind == "asym":
            par["al"] = rng.choice([0, 2, 4])
        elif kind == "tversky":
            par["al"], par["be"] = rng.choice([0, 1, 2, 4, 8]), rng.choice([0, 1, 2, 4, 8])
        elif kind == "walk":
            par.update(p3=rng.random() < .4, norm=rng.random() < .4, nonek=rng.random() < .2, s=0)
            par["al"] = rng.choice([0, 1, 1, 2])
            if not par["p3"]:
                par["be"] = rng.choice([0, 1, 1, 2])
        elif kind == "dot":
            par["s"] = 0
        if q < len(small) and rng.random() < .5:
            X = np.array(small[q]).reshape(3, 3)
        elif kind == "walk":
            binary = par["al"] > 1 or par["be"] > 1
            X = matrix(rng, rng.randint(1, 4), rng.randint(1, 4), [1] if binary else [1, 2])
        elif kind in ("cosine", "asym") and par["s"] and rng.random() < .7:
            X = square_rows(rng, rng.randint(1, 5), rng.randint(1, 5))
            if side == "item":
                X = X.T
        else:
            X = matrix(rng, rng.randint(1, 5), rng.randint(1, 6), rng.choice([[1], [1, 2], [1, 2, 3]]))
        F = X.T if side == "item" else X             # rows are the things compared
        T, C = F, F
        direct = rng.random() < .3
        if direct and kind != "walk":
            T = matrix(rng, rng.randint(1, 5), F.shape[1], [1, 2]) if rng.random() < .7 else F
        if kind in ("cosine", "asym") and par["s"] and not (squares(T) and squares(C)) and not (kind == "asym" and par["al"] != 2):
            par["s"] = 0
        if not separated(kind, T, C, par):
            ck.count("skipped_tie_by_constant")
            continue
        Xs = rng.choice([sps.csr_matrix, sps.csc_matrix])(X.astype(rng.choice([np.float64, np.float32, np.int64])))
        before = Xs.toarray().copy()
        cid = f"{kind}.{len(rn.cases)}"
        if direct:
            ck.count("computer_calls")
            comp = rn.computer(kind, C, par, rng.choice([1, 2, 3, 128]))
            Tm = sps.csr_matrix(T.astype(float))
            k = par["k"]
            if kind == "walk":
                r = call(comp.compute_W, Tm, k)
                r = r if r[0] == "err" else ("ok", r[1].T)
            else:
                r = call(comp.compute_similarity, Tm, k)
            norm, rec = False, None
        else:
            ck.count("models_" + side)
            r = call(lambda: rn.build(kind, side, Xs, par).learn())
            rec = r[1] if r[0] == "ok" else None
            if rec is not None:
                M = rec.W if side == "item" else rec.U
                r = ("ok", M.T if kind == "walk" else M)
            norm = par["norm"]
            k = X.shape[1] if par["nonek"] else par["k"]
        if r[0] == "err":
            ck.violation("failed", f"{kind} {side} {par} on {X.tolist()}: {r[1]}: {r[2]}", X.tolist())
            continue
        if not np.array_equal(Xs.toarray(), before):
            ck.violation("input-changed", f"{kind} {side} changed the caller's matrix", X.tolist())
        noself = not direct and kind != "walk"
        ties = exact_walk(T, par["al"]) if kind == "walk" else True
        rn.cases.append(dict(id=cid, kind=kind, nf=int(T.shape[1]), T=T.tolist(), X=C.tolist(), k=k, s=par["s"], al=par["al"], be=par["be"],
                             ties=ties, noself=noself, obs=sparse_rows(r[1])))
        rn.meta[cid] = (kind, side, par, X, T, r[1].toarray() if sps.issparse(r[1]) else np.asarray(r[1]), norm, noself, rec)


def formula(kind, T, C, par):
    """documented formula, for settings whose values are not rational"""
    common = (T != 0).astype(float) @ (C != 0).T.astype(float)
    s = par["s"] / 4
    if kind == "dot":
        V = T @ C.T
    elif kind == "cosine":
        V = T @ C.T / (np.sqrt((T ** 2).sum(1))[:, None] * np.sqrt((C ** 2).sum(1))[None] + s + EPS)
    elif kind == "asym":
        al = par["al"] / 4
        with np.errstate(all="ignore"):
            V = T @ C.T / (np.power((T ** 2).sum(1), al)[:, None] * np.power((C ** 2).sum(1), 1 - al)[None] + s + EPS)
    elif kind in ("jaccard", "tversky"):
        a, b = (T != 0).sum(1)[:, None], (C != 0).sum(1)[None]
        if kind == "jaccard":
            V = common / (a + b - common + s + EPS)
        else:
            V = common / (common + par["al"] / 4 * (a - common) + par["be"] / 4 * (b - common) + s + EPS)
    else:
        with np.errstate(all="ignore"):
            Ta = np.where(T > 0, T ** par["al"], 0)
            pw = lambda M, ax: np.nan_to_num(M / M.sum(ax, keepdims=True))
            V = (pw(Ta, 0) / np.power(T.sum(1), par["be"])[:, None]) @ pw(Ta, 1).T
    return np.where(common > 0, V, 0.0), common > 0


def weigh(X, par):
    """documented weightings"""
    n = X.shape[0]
    df = (X != 0).sum(0)
    if par["fw"] == "TF_IDF":
        return X * np.log(n / (1 + df))[None]
    k1, b = par["k1"], par["b"]
    idf = np.log(n / (df + 1) + 1)
    dl = X.sum(1)
    return np.where(X > 0, idf[None] * X * (k1 + 1) / (X + k1 * (1 - b + b * dl / dl.mean())[:, None]), 0)


def general(ck, rn, n, big=False):
    rng = ck.rng
    for _ in range(n):
        kind = rng.choice(["dot", "cosine", "cosine", "asym", "asym", "jaccard", "tversky", "walk", "walk"])
        side = "item" if kind in ("jaccard", "tversky", "walk") else rng.choice(["item", "user"])
        par = dict(s=4 * rng.choice([0, 0, .3, 1.5, 20]), al=4 * rng.random(), be=4 * rng.random(), threads=rng.choice([1, 2, 3, 4, 7]),
                   k=rng.choice([1, 2, 3, 5, 100]), p3=True, norm=False, nonek=False, fw=None)
        if kind == "tversky":
            par["al"], par["be"] = 4 * rng.choice([0, .3, 1.7]), 4 * rng.choice([0, .2, 1, 2])
        if kind == "walk":
            par.update(p3=rng.random() < .4, norm=rng.random() < .5, nonek=rng.random() < .2, s=0, al=rng.choice([0, .5, .7, 1, 1.3, 2]))
            par["be"] = 0 if par["p3"] else rng.choice([0, .1, .6, 1, 1.4])
        if kind in ("dot", "cosine", "asym") and rng.random() < .6:
            par["fw"] = rng.choice(["TF_IDF", "BM_25"])
            par["k1"], par["b"] = rng.choice([(1.2, .75), (.5, .2), (2.0, 1.0), (1.0, 0.0)])
        nu, ni = (rng.randint(130, 300), rng.randint(130, 280)) if big else (rng.randint(2, 12), rng.randint(2, 14))
        p = .02 if big else rng.choice([.2, .5])
        X = np.array([[rng.choice([1, 2, 3, .5]) if rng.random() < p else 0 for _ in range(ni)] for _ in range(nu)], dtype=float)
        if par["fw"] == "BM_25" and X.sum() == 0:
            continue
        Xs = sps.csr_matrix(X)
        r = call(lambda: rn.build(kind, side, Xs, par).learn())
        if r[0] == "err":
            ck.violation("failed", f"{kind} {side} {par}: {r[1]}: {r[2]}", X.tolist())
            continue
        rec = r[1]
        M = rec.W if side == "item" else rec.U
        M = M.T if kind == "walk" else M
        ck.count("weighted_models" if par["fw"] else "float_models")
        F = X.T if side == "item" else X
        Cw = F
        if par["fw"]:
            Xw = weigh(X, par)
            Cw = Xw.T if side == "item" else Xw
        V, nz = formula(kind, F, Cw, par)
        if par["fw"]:
            nz = (F != 0).astype(float) @ (F != 0).T.astype(float) > 0
            V = np.where(nz, np.nan_to_num(V), 0)
        scale = np.max(np.abs(V)) or 1.0
        # negative weights (a feature everyone has) are possible: shift, keep the order
        lo = min(0.0, float(V.min()))
        Q = np.where(nz, np.round((V - lo) / (scale * 2) * 1e9), -1).astype(np.int64)
        got = sps.csr_matrix(M).toarray()
        # a similarity of exactly zero is not visible in the result
        if (np.abs(V[nz]) < 1e-12).any():
            ck.count("skipped_zero_similarity")
            continue
        cid = f"given.{len(rn.cases)}"
        k = X.shape[1] if par["nonek"] else par["k"]
        noself = kind != "walk"
        rn.cases.append(dict(id=cid, kind="given", V=Q.tolist(), k=k, ties=False, noself=noself, obs=sparse_rows(M)))
        rn.meta[cid] = (kind, side, par, X, V, got, par["norm"], noself, rec)


def crowded(ck, rn, n):
    """a row with thousands of neighbours"""
    rng = ck.rng
    for q in range(n):
        kind = ["cosine", "jaccard", "asym", "tversky", "dot", "walk"][(q + ck.seed) % 6]
        g = np.random.RandomState(rng.randrange(2 ** 31))
        nc, nf = rng.randint(1100, 2200), rng.randint(40, 60)
        C = g.random_sample((nc, nf)) * (g.random_sample((nc, nf)) < .4)
        if kind in ("jaccard", "tversky"):
            C = (C != 0).astype(float)
        C[:, 0] = 1
        par = dict(s=4 * rng.choice([0, 1.5]), al=2.8, be=1.2, threads=rng.choice([1, 2]), k=rng.choice([3, 20, nc - 5, 2 * nc]), p3=True)
        if kind == "walk":
            par.update(s=0, al=.7, be=0)
        T = C if kind == "walk" else (C[[nc - 1]] if rng.random() < .5 else np.r_["-1", [[1.]], (g.random_sample((1, nf - 1)) < .5)])
        V, nz = formula(kind, T, C, par)
        Tm = sps.csr_matrix(T)
        comp = rn.computer(kind, C, par, rng.choice([1, 128]))
        r = call(comp.compute_W, Tm, par["k"]) if kind == "walk" else call(comp.compute_similarity, Tm, par["k"])
        if r[0] == "err":
            ck.violation("failed", f"{kind} with {nc} neighbours: {r[1]}: {r[2]}")
            continue
        M = sps.csr_matrix(r[1].T if kind == "walk" else r[1])
        if kind == "walk":
            one = [rng.randrange(nc)]
            M, V, nz = M[one], V[one], nz[one]
        Q = np.where(nz, np.round(V / np.abs(V).max() * 1e9), -1).astype(np.int64)
        cid = f"given.{len(rn.cases)}"
        rn.cases.append(dict(id=cid, kind="given", V=Q.tolist(), k=par["k"], ties=False, noself=False, obs=sparse_rows(M)))
        rn.meta[cid] = (kind, "item", par, np.zeros((0, 0)), V, M.toarray(), False, False, None)
        ck.count("crowded_rows")


def compare(ck, rn, answers):
    rng = ck.rng
    for cid, a in answers.items():
        kind, side, par, X, T, got, norm, noself, rec = rn.meta[cid]
        info = dict(kind=kind, side=side, par=par, X=X.tolist())
        if a["bad"]:
            ck.violation("selection", f"{kind} {side} {par}: {a['bad'][0]}", info)
            continue
        if cid.startswith("given"):
            want = np.where(got != 0, T, 0.0)
        else:
            want = np.zeros_like(got, dtype=float)
            for i, row in enumerate(a["table"]):
                for j, n, q, r in row:
                    want[i, j - 1] = value(kind, n, q, r)
            want = np.where(got != 0, want, 0.0)
        if norm:
            s = want.sum(0, keepdims=True)      # rows of W = columns here
            want = np.divide(want, s, out=np.zeros_like(want), where=s != 0)
        if not np.allclose(got, want, rtol=1e-9, atol=1e-12):
            i, j = np.argwhere(~np.isclose(got, want, rtol=1e-9, atol=1e-12))[0]
            ck.violation("value", f"{kind} {side} {par}: entry {i},{j} is {got[i, j]!r} instead of {want[i, j]!r}", info)
            continue
        if rec is None:
            continue
        users = [rng.randrange(X.shape[0]) for _ in range(rng.randint(1, 4))]
        W = want.T if kind == "walk" else want
        full = X @ W if side == "item" else W @ X
        for how, sc, exp in [("users", rec.get_score(np.array(users)), full[users]), ("block", rec.get_score_block(0, X.shape[0]), full)]:
            sc = np.asarray(sc)
            if sc.shape != exp.shape or not np.allclose(sc, exp, rtol=1e-9, atol=1e-10):
                ck.violation("score", f"{kind} {side} {par}: scores ({how}) are not the documented product", info)
        if side == "item":
            H = (np.array([[rng.choice([0, 0, 1, 2]) for _ in range(X.shape[1])] for _ in range(2)]) * 1.0)
            if not np.allclose(np.asarray(rec.get_score_cold_user(sps.csr_matrix(H))), H @ W, rtol=1e-9, atol=1e-10):
                ck.violation("score", f"{kind} {par}: scores of unseen histories are not the documented product", info)
        ck.count("score_checks")
    ck.traces += len(answers)


def rejected(ck, rn):
    R, K = rn.R, rn.K
    X = sps.csr_matrix(np.array([[1., 0, 2], [0, 1, 1]]))
    bad = [
        ("shrinkage < 0 (cosine)", lambda: R.CosineKNNRecommender(X, shrinkage=-.1, n_threads=1).learn()),
        ("shrinkage < 0 (user cosine)", lambda: R.CosineUserKNNRecommender(X, shrinkage=-.1, n_threads=1).learn()),
        ("shrinkage < 0 (jaccard)", lambda: R.JaccardKNNRecommender(X, shrinkage=-.1, n_threads=1).learn()),
        ("shrinkage < 0 (tversky)", lambda: R.TverskyIndexKNNRecommender(X, shrinkage=-.1, n_threads=1).learn()),
        ("shrinkage < 0 (asymmetric)", lambda: R.AsymmetricCosineKNNRecommender(X, shrinkage=-.1, n_threads=1).learn()),
        ("alpha < 0 (asymmetric)", lambda: R.AsymmetricCosineKNNRecommender(X, alpha=-.01, n_threads=1).learn()),
        ("alpha > 1 (asymmetric)", lambda: R.AsymmetricCosineKNNRecommender(X, alpha=1.01, n_threads=1).learn()),
        ("alpha > 1 (user asymmetric)", lambda: R.AsymmetricCosineUserKNNRecommender(X, alpha=1.01, n_threads=1).learn()),
        ("alpha < 0 (tversky)", lambda: R.TverskyIndexKNNRecommender(X, alpha=-.01, n_threads=1).learn()),
        ("beta < 0 (tversky)", lambda: R.TverskyIndexKNNRecommender(X, beta=-.01, n_threads=1).learn()),
        ("alpha < 0 (p3)", lambda: R.P3alphaRecommender(X, alpha=-.01, n_threads=1).learn()),
        ("alpha < 0 (rp3)", lambda: R.RP3betaRecommender(X, alpha=-.01, n_threads=1).learn()),
        ("beta < 0 (rp3)", lambda: R.RP3betaRecommender(X, beta=-.01, n_threads=1).learn()),
        ("unknown weighting", lambda: R.CosineKNNRecommender(X, feature_weighting="tfidf", n_threads=1).learn()),
        ("unknown weighting (user)", lambda: R.CosineUserKNNRecommender(X, feature_weighting="BM25", n_threads=1).learn()),
        ("negative top_k", lambda: R.CosineKNNRecommender(X, top_k=-1, n_threads=1).learn()),
        ("feature count", lambda: K.CosineSimilarityComputer(X, 0, True, 1).compute_similarity(sps.csr_matrix((2, 4)), 2)),
        ("feature count (jaccard)", lambda: K.JaccardSimilarityComputer(X, 0, 1).compute_similarity(sps.csr_matrix((2, 2)), 2)),
        ("chunk size 0", lambda: K.JaccardSimilarityComputer(X, 0, 1, 0)),
    ]
    good = [
        ("alpha 0 and 1 (asymmetric)", lambda: [R.AsymmetricCosineKNNRecommender(X, alpha=a, n_threads=1).learn() for a in (0, 1)]),
        ("alpha > 1 (tversky)", lambda: R.TverskyIndexKNNRecommender(X, alpha=3, beta=0, n_threads=1).learn()),
        ("alpha 0 (walks)", lambda: [R.P3alphaRecommender(X, alpha=0, n_threads=1).learn(), R.RP3betaRecommender(X, alpha=0, beta=0, n_threads=1).learn()]),
    ]
    for what, fn in bad:
        ck.count("rejections")
        if call(fn)[0] != "err":
            ck.violation("accepted", f"{what} is accepted")
    for what, fn in good:
        r = call(fn)
        if r[0] != "ok":
            ck.violation("refused", f"{what} is refused: {r[1:]}")


def body(ck):
    irsload.load()
    rn = Runner(ck)
    rejected(ck, rn)
    exact(ck, rn, ck.pick(1500, 12000))
    general(ck, rn, ck.pick(250, 1500))
    ck.log(len(rn.cases), "cases")
    compare(ck, rn, ck.expect("Similarity", rn.cases))
    rn.cases, rn.meta = [], {}
    general(ck, rn, ck.pick(3, 25), big=True)
    crowded(ck, rn, ck.pick(3, 18))
    compare(ck, rn, ck.expect("Similarity", rn.cases))
    ck.sample("all 512 binary 3x3 matrices (half of the draws) over 6 similarity kinds; ties, truncation, threads, chunk sizes")


def main():
    run("C19", body)
