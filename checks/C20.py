"""C20: matrix utilities and linear models meet their definitions."""
import math

import numpy as np
import scipy.sparse as sps

import irsload
from vlib import call, run

S = 10000


def ints(rng, n, m, vals=(1, 2, 3), p=None):
    p = p if p is not None else rng.choice([0, .2, .5, .9, 1])
    return np.array([[rng.choice(vals) if rng.random() < p else 0 for _ in range(m)] for _ in range(n)], dtype=np.int64).reshape(n, m)


def unchanged(ck, what, S_, before):
    if not np.array_equal(S_.toarray(), before):
        ck.violation("input-changed", f"{what} changed its input", before.tolist())


def utilities(ck, n):
    from irspack.utils import l1_normalize_row, okapi_BM_25_weight, remove_diagonal, sparse_mm_threaded, tf_idf_weight
    rng = ck.rng
    cases, meta = [], {}
    for q in range(n):
        kind = rng.choice(["mm", "mm", "diag", "l1", "tfidf", "bm25"])
        cid = f"{kind}.{q}"
        if kind == "mm":
            a, b, m = rng.choice([1, 2, 5, 15, 16, 17, 33, 40, 65, 100, 150, 300]), rng.choice([1, 2, 3, 5, 12]), rng.choice([1, 2, 3, 5, 20])
            if rng.random() < .03:
                a, b, m = rng.choice([1, 17]), rng.choice([1, 70]), 130
            A, B = ints(rng, a, b, (1, -2, 3)), ints(rng, b, m, (1, 2, -3))
            SA, SB = sps.csr_matrix(A.astype(float)), sps.csc_matrix(B.astype(float))
            r = call(sparse_mm_threaded, SA, SB, rng.choice([1, 2, 3, 5, 9]))
            unchanged(ck, kind, SB, B)
            cases.append(dict(id=cid, kind="mm", A=A.tolist(), B=B.tolist(), nc=b, nb=m))
            par = None
        elif kind == "diag":
            a = rng.choice([1, 2, 3, 4, 5, 6, 30, 70])
            A = ints(rng, a, a, (1, -2, 3))
            SA = sps.csr_matrix(A.astype(float))
            r, par = call(remove_diagonal, SA), None
            cases.append(dict(id=cid, kind="diag", A=A.tolist(), nc=a))
        else:
            A = ints(rng, *((rng.randint(1, 6), rng.randint(1, 6)) if rng.random() < .85 else (rng.randint(1, 60), rng.randint(1, 50))))
            if kind == "l1":
                SA = sps.csc_matrix(A.astype(rng.choice([np.float64, np.float32, np.int32])))
                if rng.random() < .3:
                    SA = SA[:, ::-1].copy()[:, ::-1]        # same matrix, another storage
                r, par = call(l1_normalize_row, SA), None
            elif kind == "tfidf":
                par = rng.random() < .5
                SA = sps.csr_matrix(A.astype(float))
                r = call(tf_idf_weight, SA, par) if rng.random() < .7 or not par else call(tf_idf_weight, SA)
            else:
                par = rng.choice([(1.2, .75), (1.2, .75), (.5, 0.0), (2.0, 1.0), (0.0, .5)])
                SA = sps.csr_matrix(A.astype(float))
                if A.sum() == 0:
                    continue
                r = call(okapi_BM_25_weight, SA, *par) if par != (1.2, .75) else call(okapi_BM_25_weight, SA)
            cases.append(dict(id=cid, kind="l1" if kind == "l1" else "weight", A=A.tolist(), nc=A.shape[1]))
        unchanged(ck, kind, SA, A)
        if r[0] == "err":
            ck.violation("failed", f"{kind}: {r[1]}: {r[2]}", A.tolist())
            cases.pop()
            continue
        meta[cid] = (kind, A, par, r[1])
        ck.count(kind)
    for cid, a in ck.expect("SparseUtil", cases).items():
        kind, A, par, got = meta[cid]
        got = got.toarray() if sps.issparse(got) else np.asarray(got)
        out = np.array(a["out"])
        N, df = A.shape[0], np.array(a["df"], dtype=float)
        with np.errstate(all="ignore"):
            if kind in ("mm", "diag"):
                want, exact = out.reshape(A.shape[0], -1), True
            elif kind == "l1":
                want, exact = np.where(A != 0, A / out.reshape(-1, 1), 0), False
            elif kind == "tfidf":
                want, exact = np.where(A != 0, A * np.log(N / (df + (1 if par else 0)))[None], 0), False
            else:
                k1, b = par
                dl = out.reshape(-1, 1)
                want = np.where(A != 0, np.log(N / (df + 1) + 1)[None] * A * (k1 + 1) / (A + k1 * (1 - b + b * dl * N / a["total"])), 0)
                exact = False
        if got.shape != want.shape or not (np.array_equal(got, want) if exact else np.allclose(got, want, rtol=1e-11, atol=1e-13)):
            ck.violation(kind, f"{kind} {par}: got {got.tolist()} instead of {want.tolist()}", dict(A=A.tolist(), par=par))
    ck.traces += len(meta)


def q(B):
    B = B.toarray() if sps.issparse(B) else np.asarray(B)
    out = np.rint(B.astype(np.float64) * S).astype(np.int64)
    # a weight that is there but tiny must not count as missing
    out[(out == 0) & (B > 0)] = 1
    out[(out == 0) & (B < 0)] = -1
    return out


def models(ck, n):
    import irspack.recommenders as R
    rng = ck.rng
    cases, info = [], {}
    for z in range(n):
        kind = rng.choice(["slim", "slim", "slim", "topk", "topk", "ease", "edlae"])
        nu = rng.randint(1, 7)
        ni = rng.choice([1, 2, 3, 4, 5, 6, 9]) if rng.random() < .95 else rng.choice([17, 26, 33])
        X = ints(rng, nu, ni, rng.choice([(1,), (1,), (1, 2), (1, 3, 5)]), rng.choice([.3, .5, .8]))
        Xs = sps.csr_matrix(X.astype(rng.choice([np.float64, np.float32, np.int64])))
        cid = f"{kind}.{z}"
        if kind in ("slim", "topk"):
            a2, a1 = rng.choice([50, 100, 300, 1000]), rng.choice([0, 10, 50, 100, 400])
            alpha = (a1 + a2) / 100 / nu
            kw = dict(alpha=alpha, l1_ratio=a1 / (a1 + a2), positive_only=rng.random() < .5, n_iter=3000, tol=1e-7, n_threads=rng.choice([1, 2, 3, 5]))
            if kind == "topk" and rng.random() < .5:
                kw.update(n_iter=rng.choice([1, 2, 5]), tol=0)
            r = call(lambda: R.SLIMRecommender(Xs, **kw).learn().W)
            if r[0] == "ok" and kind == "topk":
                k = rng.choice([0, 1, 1, 2, 3, 5])
                r2 = call(lambda: R.SLIMRecommender(Xs, top_k=k, **kw).learn().W)
                if r2[0] == "err":
                    r = r2
                else:
                    full, lim = r[1].toarray(), r2[1].toarray()
                    rank = np.zeros(full.shape, dtype=np.int64)
                    order = {v: i + 1 for i, v in enumerate(sorted(set(full[full != 0].tolist())))}
                    for i in range(ni):
                        for j in range(ni):
                            rank[i, j] = order.get(float(full[i, j]), 0) if full[i, j] != 0 else 0
                    keptm = (lim != 0).astype(int)
                    if not np.array_equal(lim[keptm == 1], full[keptm == 1]):
                        ck.violation("topk-value", f"the weights kept for k={k} differ from the unlimited solution ({kw})", X.tolist())
                    cases.append(dict(id=cid, kind="topk", ni=ni, k=k, rank=rank.tolist(), kept=keptm.tolist()))
            elif r[0] == "ok":
                cases.append(dict(id=cid, kind="slim", ni=ni, X=X.tolist(), B=q(r[1]).tolist(), l1=a1, l2=a2, pos=kw["positive_only"], tol=2))
        else:
            reg4 = rng.choice([1, 2, 4, 12, 40])
            if rng.random() < .2 and np.linalg.cond((X.T @ X).astype(float)) < 30:
                reg4 = 0
            if kind == "ease":
                kw = dict(reg=reg4 / 4)
                D = [reg4] * ni
                r = call(lambda: R.DenseSLIMRecommender(Xs, **kw).learn().W)
            else:
                p, ratio4 = rng.choice([(0.0, 0), (.5, 4), (.2, 1), (.75, 12)])
                kw = dict(reg=reg4 / 4, dropout_p=p)
                D = [int(reg4 + ratio4 * (X[:, i] ** 2).sum()) for i in range(ni)]
                r = call(lambda: R.EDLAERecommender(Xs, **kw).learn().W)
            if r[0] == "ok":
                cases.append(dict(id=cid, kind="closed", ni=ni, X=X.tolist(), B=np.rint(np.asarray(r[1], dtype=float) * S).astype(int).tolist(), D=D, tol=2))
                if np.any(np.diag(np.asarray(r[1])) != 0):
                    ck.violation("diagonal", f"{kind} {kw} has a nonzero diagonal", X.tolist())
        unchanged(ck, kind, Xs, X)
        if r[0] == "err":
            ck.violation("failed", f"{kind} {kw}: {r[1]}: {r[2]}", X.tolist())
            continue
        W = r[1].toarray() if sps.issparse(r[1]) else np.asarray(r[1])
        if not np.isfinite(W).all() or W.shape != (ni, ni):
            ck.violation("unusable", f"{kind} {kw}: not a finite {ni}x{ni} matrix", X.tolist())
            if cases and cases[-1]["id"] == cid:
                cases.pop()
            continue
        info[cid] = (kind, kw, X.tolist())
        ck.count(kind)
    for cid, bad in ck.judge("LinearModels", cases).items():
        kind, kw, X = info[cid]
        ck.violation(kind, f"{kind} {kw}: {bad[0]}", dict(X=X, kw=kw, bad=bad[:5]))


def rejected(ck):
    import irspack.recommenders as R
    from irspack.utils import remove_diagonal, sparse_mm_threaded
    X = sps.csr_matrix(np.array([[1., 0, 2], [0, 1, 1]]))
    for what, fn in [
            ("diagonal of a non-square matrix", lambda: remove_diagonal(X)),
            ("product of mismatching shapes", lambda: sparse_mm_threaded(X, sps.csc_matrix(np.ones((2, 2))), 1)),
            ("product of mismatching shapes (more rows)", lambda: sparse_mm_threaded(X, sps.csc_matrix(np.ones((4, 2))), 2)),
            ("SLIM without iterations", lambda: R.SLIMRecommender(X, n_iter=0, n_threads=1).learn()),
            ("SLIM with negative l2", lambda: R.SLIMRecommender(X, alpha=.1, l1_ratio=1.5, n_threads=1).learn()),
            ("SLIM with negative l1", lambda: R.SLIMRecommender(X, alpha=.1, l1_ratio=-.5, n_threads=1).learn())]:
        ck.count("rejections")
        if call(fn)[0] != "err":
            ck.violation("accepted", f"{what} is accepted")


def body(ck):
    irsload.load()
    utilities(ck, ck.pick(500, 4000))
    models(ck, ck.pick(600, 5000))
    rejected(ck)
    ck.sample("SLIM solutions judged by their optimality conditions in integer arithmetic; closed forms by (G+D)(I-B) diagonal")
    ck.assumptions = ["SLIM is judged at convergence (3000 sweeps, l2 >= 0.5) up to 2e-4 per weight"]


def main():
    run("C20", body)
