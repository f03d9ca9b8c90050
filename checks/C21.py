"""C21: implicit ALS solves its stated problem and its state round-trips."""
import io
import math
import pickle
from functools import reduce

import numpy as np
import scipy.sparse as sps

import als
import irsload
from vlib import call, run

LIMIT = 2 ** 31 - 1
F32 = np.float32


def ints(rng, n, m, vals, p=.5):
    return np.array([[rng.choice(vals) if rng.random() < p else 0 for _ in range(m)] for _ in range(n)], dtype=np.int64).reshape(n, m)


# ------------------------------------------------------- guards for the model
def system(par, V, x, p):
    """The integer system of the specification, to see whether TLC's 32-bit
    integers can hold it and whether single precision can solve it."""
    K, M = V.shape[1], len(V)
    t = par["a4"] * M + 4 * int((x != 0).sum())
    R = {0: 16 * par["r10"], 1: 4 * par["r10"] * t, 2: par["r10"] * t * t}[par["nu"]]
    A = (V.T * (40 * par["a4"] + 160 * x)) @ V + R * np.eye(K, dtype=np.int64)
    b = (V.T * np.where(x != 0, 160 * x + (40 * par["a4"] if par["orig"] else 0), 0)).sum(1) + R * (p if p is not None else 0)
    raw = max(np.abs(A).max(), np.abs(b).max())
    g = reduce(math.gcd, [int(v) for v in A.ravel()] + [int(v) for v in b], 0) or 1
    A, b = A // g, b // g
    top = int(max(np.abs(A).max(), np.abs(b).max()))
    fits = raw < LIMIT and 6 * top ** K < LIMIT
    try:
        cond = np.linalg.cond(A.astype(float))
    except Exception:
        cond = np.inf
    return fits, cond


def params(rng, nice=False):
    if nice:
        return dict(a4=4 * rng.choice([0, 1]), r10=10, nu=0, orig=rng.random() < .5)
    return dict(a4=rng.choice([0, 1, 2, 4, 8]), r10=rng.randint(1, 10), nu=rng.choice([0, 1, 1, 2]), orig=rng.random() < .5)


def kwargs(par, **kw):
    return dict(dict(alpha0=par["a4"] / 4, reg=par["r10"] / 10, nu=float(par["nu"]),
                     loss_type="ORIGINAL" if par["orig"] else "IALSPP"), **kw)


def close(got, want, tol=1e-3):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    return got.shape == want.shape and np.isfinite(got).all() and np.all(np.abs(got - want) <= tol * np.maximum(1, np.abs(want).max(initial=0)))


def frac(out):
    return np.array([[n / d for n, d in r] for r in out])


def core_of(rec):
    return rec.trainer_as_ials.core_trainer


# the solvers with settings under which each of them reaches the minimiser
def solver(rng, K, cond):
    s = rng.choice(["CHOLESKY", "CG", "CG0", "IALSPP", "IALSPP1"])
    if s == "CHOLESKY":
        return "CHOLESKY", {}
    if s == "CG":
        return "CG", dict(max_cg_steps=K + rng.choice([0, 1, 4]), prediction_time_max_cg_steps=K + rng.choice([0, 1, 4]))
    if s == "CG0":
        return "CG", dict(max_cg_steps=0, prediction_time_max_cg_steps=0)
    if s == "IALSPP" or cond > 20:
        return "IALSPP", dict(ialspp_subspace_dimension=rng.choice([d for d in (2, 3, 64) if d >= K]) if K > 1 else 64, prediction_time_ialspp_iteration=rng.choice([1, 7]))
    return "IALSPP", dict(ialspp_subspace_dimension=rng.choice([1, 2]), prediction_time_ialspp_iteration=600)


def exact(ck, n):
    """Fitting of unseen users / items and the user half of an epoch."""
    from irspack.recommenders import IALSRecommender
    rng = ck.rng
    cases, meta = [], {}
    for q in range(n):
        style = rng.choice(["small"] * 6 + ["three", "three", "long", "many"])
        nice = style in ("three", "long")
        par = params(rng, nice)
        K = 3 if style == "three" else rng.choice([1, 2, 2])
        nu_, ni = rng.randint(1, 5), rng.randint(1, 5)
        if style == "long":
            ni = rng.choice([63, 64, 65, 66, 128, 129, 130])
        if style == "many":
            nu_ = rng.randint(15, 40)
        vv = (-1, 1) if nice else (-2, -1, 1, 2)
        U, V = ints(rng, nu_, K, vv, .8), ints(rng, ni, K, vv, .8)
        vals = (1,) if style == "long" and rng.random() < .3 else (1, 2, 3)
        dens = rng.choice([.3, .6, .97] if style != "long" else [.6, .97, 1])
        X = ints(rng, nu_, ni, vals, dens)
        what = rng.choice(["user", "item", "epoch", "user", "sweep"])
        prior = what != "sweep" and rng.random() < .4
        if style == "long" and what == "item":
            what = "user"
        side = "item" if what == "item" else "user"
        O, T = (V, X) if side == "user" else (U, X.T)      # other factors, rows to fit
        if what in ("user", "item", "sweep"):
            rows = ints(rng, rng.choice([1, 3, 6]), len(O), vals, dens)
        else:
            rows = T
        if what == "sweep" and K != 2:
            continue
        P = F = W = None
        nf = rng.randint(1, 3)
        if prior:
            W, F = ints(rng, nf, K, (-1, 1, 2), .7), ints(rng, len(rows), nf, (1, 1, 2), .6)
            P = F @ W
        guard = [system(par, O, r, P[j] if prior else None) for j, r in enumerate(rows)]
        if not all(f for f, _ in guard):
            ck.count("skipped_too_large")
            continue
        needed = [c for (f, c), r in zip(guard, rows) if prior or (r != 0).any()]
        cond = max(needed, default=1)
        undefined = prior and par["a4"] == 0 and par["nu"] > 0 and not all((r != 0).any() for r in rows)
        if cond > 500 and not undefined:
            ck.count("skipped_ill_conditioned")
            continue
        st, sk = solver(rng, K, cond)
        if prior and st == "IALSPP":
            st, sk = "CHOLESKY", {}
        if what == "sweep":
            st, sk = "IALSPP", dict(ialspp_subspace_dimension=1, prediction_time_ialspp_iteration=1)
        if what == "epoch" and st == "IALSPP" and sk["ialspp_subspace_dimension"] < K:
            sk = dict(ialspp_subspace_dimension=64)
        kw = kwargs(par, n_components=K, train_epochs=1, solver_type=st, n_threads=rng.choice([1, 2, 4]), **sk)
        sparse_f = rng.random() < .5
        ff = (lambda A: sps.csr_matrix(A.astype(float))) if sparse_f else (lambda A: A.astype(float))
        if prior:
            lam = rng.choice([.5, 1., 2.])
            TF = F if what == "epoch" else ints(rng, X.shape[0 if side == "user" else 1], nf, (1, 2), .6)
            kw.update({f"{side}_features": ff(TF), f"lambda_{side}_feature": lam})
        FI = WI = None
        if what == "epoch" and st != "IALSPP" and par["a4"] > 0 and rng.random() < .5:
            FI, WI = ints(rng, ni, 2, (1, 2), .6), ints(rng, 2, K, (-1, 1, 2), .7)
            kw.update(item_features=ff(FI), lambda_item_feature=1.0)
        Xs = sps.csr_matrix(X.astype(rng.choice([np.float64, np.float32, np.int64])))
        tag = f"{what} {style} {'prior ' if prior else ''}{kw}"
        try:
            rec = IALSRecommender(Xs, **kw)
            rec.trainer = rec._create_trainer()
        except Exception as e:
            ck.violation("failed", f"{tag}: {e}")
            continue
        core = core_of(rec)
        core.user, core.item = U.astype(F32), V.astype(F32)
        if prior:
            setattr(core, f"{side}_feature_weight", W.astype(F32))
        if FI is not None:
            core.item_feature_weight = WI.astype(F32)
        if what == "epoch":
            r = call(lambda: (rec.trainer.run_epoch(), np.array(rec.get_user_embedding()))[1])
        else:
            S_ = sps.csr_matrix(rows.astype(float))
            if side == "item":
                S_ = rng.choice([sps.csr_matrix, sps.csc_matrix])(S_.T)
            f = rec.compute_user_embedding if side == "user" else rec.compute_item_embedding
            feats = {f"{side}_features": ff(F)} if prior else {}
            r = call(f, S_, **feats)
            if not np.array_equal(S_.toarray(), (rows.T if side == "item" else rows).astype(float)):
                ck.violation("input-changed", f"{tag} changed its input")
            if not np.array_equal(core.user, U) or not np.array_equal(core.item, V):
                ck.violation("state-changed", f"{tag}: fitting unseen rows changed the model")
        if undefined:
            ck.count("undefined_prior")
            if r[0] != "err":
                ck.violation("undefined", f"{tag}: a row without interactions and regularisation is fitted")
            continue
        if r[0] == "err":
            ck.violation("failed", f"{tag}: {r[1]}: {r[2]}", dict(V=O.tolist(), X=rows.tolist()))
            continue
        cid = f"{q}"
        cases.append(dict(id=cid, kind="sweep" if what == "sweep" else "solve", K=K, V=O.tolist(), X=rows.tolist(), prior=bool(prior), P=P.tolist() if prior else [], **par))
        after = None
        if what == "epoch":
            after = dict(rec=rec, X=X, F=F, lam=lam if prior else None, FI=FI, WI=WI)
        meta[cid] = (tag, r[1], after)
        ck.count(what)
        ck.count("solver_" + st)
        if prior:
            ck.count("with_features")
        if style == "long":
            ck.count("long_rows")
    ridge = []
    for cid, a in ck.expect("IALS", cases).items():
        tag, got, after = meta[cid]
        want = frac(a["out"])
        ck.traces += 1
        if not close(got, want):
            ck.violation("solve", f"{tag}: got {np.asarray(got).tolist()} want {want.tolist()}"[:600])
            continue
        if after:
            rec, X = after["rec"], after["X"]
            Un = np.asarray(rec.get_user_embedding(), dtype=float)
            a0 = rec.alpha0
            cond = 1
            for i in range(X.shape[1]):
                x = X[:, i]
                if (x != 0).any():
                    cond = max(cond, np.linalg.cond((Un.T * (a0 + x)) @ Un + rec.reg * (a0 * len(Un) + (x != 0).sum()) ** rec.nu * np.eye(Un.shape[1])))
            if cond < 500:
                if after["FI"] is None:
                    r = call(rec.compute_item_embedding, sps.csr_matrix(X.astype(float)))
                else:       # against the weights before the epoch
                    now = np.array(core_of(rec).item_feature_weight)
                    core_of(rec).item_feature_weight = after["WI"].astype(F32)
                    r = call(rec.compute_item_embedding, sps.csr_matrix(X.astype(float)), item_features=after["FI"].astype(float))
                    core_of(rec).item_feature_weight = now
                    ck.count("item_half_features")
                ck.count("item_half")
                if r[0] == "err" or not close(rec.get_item_embedding(), r[1], 2e-3):
                    ck.violation("item-half", f"{tag}: the items after the epoch are not the fit to the users after the epoch")
            if after["lam"]:
                ridge.append((tag, rec, X, after["F"], after["lam"], "user"))
            if after["FI"] is not None:
                ridge.append((tag, rec, X.T, after["FI"], 1.0, "item"))
    # feature weights after the users' half: judged by their normal equations
    cases, tags = [], {}
    for q, (tag, rec, X, F, lam, side) in enumerate(ridge):
        par = dict(a4=round(rec.alpha0 * 4), r10=round(rec.reg * 10), nu=int(rec.nu))
        t = [par["a4"] * X.shape[1] + 4 * int((x != 0).sum()) for x in X]
        R = [{0: 16 * par["r10"], 1: 4 * par["r10"] * z, 2: par["r10"] * z * z}[par["nu"]] for z in t]
        sc = 1000
        Y, W = (np.rint(np.asarray(getattr(core_of(rec), a), dtype=float) * sc) for a in (side, f"{side}_feature_weight"))
        if not np.isfinite(W).all() or np.abs(F).sum() * max(R) * (np.abs(Y).max() + 6 * np.abs(W).max() + 10) > LIMIT:
            ck.count("skipped_too_large")
            continue
        cid = f"ridge{q}"
        tags[cid] = tag
        cases.append(dict(id=cid, kind="ridge", K=Y.shape[1], F=F.tolist(), R=R, Y=Y.astype(int).tolist(), W=W.astype(int).tolist(), lam160=int(160 * lam)))
        ck.count("ridge")
    for cid, bad in ck.judge("IALS", cases).items():
        ck.violation("ridge", f"{tags[cid]}: {bad[0]}")


def first_steps(ck, n):
    """Conjugate gradients: exactly the number of steps asked for, from the
    previous factors when training and from zero (or the prior) for unseen rows."""
    from irspack.recommenders import IALSRecommender
    rng = ck.rng
    cases, meta = [], {}
    for q in range(n):
        par = params(rng, rng.random() < .5)
        K, nu_, ni = rng.choice([2, 2, 3]), rng.randint(1, 4), rng.randint(1, 4)
        U, V, X = ints(rng, nu_, K, (-1, 1), .8), ints(rng, ni, K, (-1, 1), .8), ints(rng, nu_, ni, (1, 2))
        what = rng.choice(["user", "item", "epoch"])
        side, O = ("item", U) if what == "item" else ("user", V)
        rows = X if what == "epoch" else ints(rng, rng.choice([1, 3]), len(O), (1, 2))
        prior = rng.random() < .3 and par["a4"] > 0
        kw = kwargs(par, n_components=K, train_epochs=1, solver_type="CG", n_threads=rng.choice([1, 3]))
        kw.update(dict(max_cg_steps=1, prediction_time_max_cg_steps=rng.choice([2, 9])) if what == "epoch" else
                  dict(max_cg_steps=rng.choice([2, 3, 9]), prediction_time_max_cg_steps=1))
        S, P, feats = (U if what == "epoch" else np.zeros((len(rows), K), int)), None, {}
        if prior:
            W, F = ints(rng, 2, K, (-1, 1), .7), ints(rng, len(rows), 2, (1,), .6)
            P = F @ W
            S = U if what == "epoch" else P
            kw.update({f"{side}_features": F.astype(float) if what == "epoch" else np.ones(((nu_, ni)[side == "item"], 2)), f"lambda_{side}_feature": 1.0})
            feats = {f"{side}_features": F.astype(float)}
        fits = True
        for j, x in enumerate(rows):
            if not prior and not x.any():
                continue
            ok, _ = system(par, O, x, P[j] if prior else None)
            t = par["a4"] * len(O) + 4 * int((x != 0).sum())
            R = {0: 16 * par["r10"], 1: 4 * par["r10"] * t, 2: par["r10"] * t * t}[par["nu"]]
            A = (O.T * (40 * par["a4"] + 160 * x)) @ O + R * np.eye(K, dtype=np.int64)
            b = (O.T * np.where(x != 0, 160 * x + (40 * par["a4"] if par["orig"] else 0), 0)).sum(1) + R * (P[j] if prior else 0)
            g = reduce(math.gcd, [int(v) for v in A.ravel()] + [int(v) for v in b], 0) or 1
            A, b = A // g, b // g
            r = b - A @ S[j]
            h = reduce(math.gcd, [int(v) for v in r], 0) or 1
            r = r // h
            big = float(np.abs(r).max()) ** 2 * K * max(float(np.abs(A).max()) * K, h * float(np.abs(r).max()))
            fits &= ok and 3 * max(1, np.abs(S).max()) * big < LIMIT
        if not fits:
            ck.count("skipped_too_large")
            continue
        rec = IALSRecommender(sps.csr_matrix(X.astype(float)), **kw)
        rec.trainer = rec._create_trainer()
        core = core_of(rec)
        core.user, core.item = U.astype(F32), V.astype(F32)
        if prior:
            setattr(core, f"{side}_feature_weight", W.astype(F32))
        if what == "epoch":
            got = call(lambda: (rec.trainer.run_epoch(), np.array(rec.get_user_embedding()))[1])
        else:
            f = rec.compute_user_embedding if side == "user" else rec.compute_item_embedding
            got = call(f, sps.csr_matrix((rows if side == "user" else rows.T).astype(float)), **feats)
        tag = f"{what} {'prior ' if prior else ''}{ {k: v for k, v in kw.items() if 'features' not in k} }"
        if got[0] == "err":
            ck.violation("failed", f"{tag}: {got[1:]}")
            continue
        cases.append(dict(id=f"{q}", kind="step", K=K, V=O.tolist(), X=rows.tolist(), prior=bool(prior), P=P.tolist() if prior else [], S=S.tolist(), **par))
        meta[f"{q}"] = tag, got[1]
        ck.count("single_steps")
    for cid, a in ck.expect("IALS", cases).items():
        tag, got = meta[cid]
        ck.traces += 1
        if not close(got, frac(a["out"])):
            ck.violation("steps", f"{tag}: one step gives {np.asarray(got).tolist()} instead of {frac(a['out']).tolist()}"[:600])


def wide(ck, n):
    """Larger systems: many factors, long rows, small weights."""
    from irspack.recommenders import IALSRecommender
    rng = ck.rng
    for q in range(n):
        g = np.random.RandomState(rng.randrange(2 ** 31))
        K = rng.choice([3, 8, 9, 17, 33, 65])
        nu_, ni = rng.choice([(3, 150), (4, 90), (150, 5), (40, 40), (3, 200)])
        pr = als.Problem(rng.choice([.003, .05, .5, 1.]), rng.choice([.05, .5, 2.]), rng.choice([0., .5, 1.]), rng.random() < .5)
        scale = rng.choice([1, 1, 1, 1e-4])                 # confidences far below one
        X = g.randint(1, 5, (nu_, ni)) * (g.rand(nu_, ni) < rng.choice([.1, .5, .95])) * scale
        if rng.random() < .3:
            X[rng.randrange(nu_)] = 0
        U, V = g.randn(nu_, K).astype(F32) / F32(math.sqrt(K)), g.randn(ni, K).astype(F32) / F32(math.sqrt(K))
        X = X.astype(F32).astype(float)
        U6, V6 = U.astype(float), V.astype(float)
        st = rng.choice(["CHOLESKY", "CG", "CG", "IALSPP", "IALSPP"])
        sub, steps = rng.choice([1, 2, 3, 7, 8, 16, 64, 100]), rng.choice([1, 2, 3])
        kw = dict(n_components=K, alpha0=pr.alpha0, reg=pr.reg, nu=pr.nu, loss_type="ORIGINAL" if pr.orig else "IALSPP", solver_type=st, train_epochs=1,
                  n_threads=rng.choice([1, 2, 3, 8]), max_cg_steps=steps, prediction_time_max_cg_steps=steps + rng.choice([-1, 1, 2]) or 4,
                  ialspp_subspace_dimension=sub, prediction_time_ialspp_iteration=rng.choice([1, 2, 3]))
        rec = IALSRecommender(sps.csr_matrix(X), **kw)
        rec.trainer = rec._create_trainer()
        core = core_of(rec)
        core.user, core.item = U, V
        N = (g.randint(1, 5, (5, ni)) * (g.rand(5, ni) < rng.choice([.3, .97])) * scale).astype(F32).astype(float)

        def solve(rows, other, start, unseen):
            if st == "CHOLESKY":
                return pr.fit(rows, other)
            if st == "CG":
                return pr.steps(rows, other, start, kw["prediction_time_max_cg_steps" if unseen else "max_cg_steps"])
            for _ in range(kw["prediction_time_ialspp_iteration"] if unseen else 1):
                start = pr.sweep(rows, other, start, sub)
            return start
        tests = []
        Lw = pr.loss(X, U6, V6)
        tests.append(("loss", call(rec.trainer.compute_loss), np.array(Lw), None))
        tests.append(("unseen users", call(rec.compute_user_embedding, sps.csr_matrix(N)), solve(N, V6, np.zeros((5, K)), True), None))
        NT = (g.randint(1, 5, (nu_, 3)) * (g.rand(nu_, 3) < .9) * scale).astype(F32).astype(float)
        tests.append(("unseen items", call(rec.compute_item_embedding, sps.csr_matrix(NT)), solve(NT.T, U6, np.zeros((3, K)), True), None))
        r = call(rec.trainer.run_epoch)
        if r[0] == "ok":
            U1 = np.array(rec.get_user_embedding())
            tests.append(("users after an epoch", ("ok", U1), solve(X, V6, U6, False), U6))
            tests.append(("items after an epoch", ("ok", np.array(rec.get_item_embedding())), solve(X.T, U1.astype(float), V6, False), V6))
        else:
            tests.append(("an epoch", r, np.zeros(0), None))
        if pr.cond > 300:
            ck.count("skipped_ill_conditioned")
            continue
        ck.traces += len(tests)
        ck.count("wide_" + st)
        for what, got, want, start in tests:
            # rounding is relative to what the solver started from
            top = max(np.abs(want).max(initial=0), 1e-12 if start is None or st == "CHOLESKY" else np.abs(start).max())
            if got[0] == "ok":
                D = np.abs(np.asarray(got[1], dtype=float) - want)
                if D.shape == want.shape and np.all(D <= (1e-4 if what == 'loss' else 2e-3) * top):
                    continue
            ck.violation("wide", f"{what} of {nu_} users and {ni} items, confidences times {scale}: "
                         f"{str(got[1:])[:150]} instead of {want.tolist()}: {kw}"[:700])
            break


def tall(ck):
    """Scores of many users at once."""
    from irspack.recommenders import IALSRecommender
    rng = ck.rng
    for nu_, th in [(700, 1), (1500, 2), (rng.randint(300, 3000), rng.choice([1, 2, 3, 8]))]:
        X = sps.csr_matrix(np.eye(nu_, 3))
        rec = IALSRecommender(X, n_components=2, n_threads=th)
        rec.trainer = rec._create_trainer()
        core = core_of(rec)
        U, V = np.arange(2 * nu_).reshape(nu_, 2) % 97, np.array([[1, 0], [2, 1], [0, 3]])
        core.user, core.item = U.astype(F32), V.astype(F32)
        b = rng.randrange(nu_ // 4)
        for b, e in ((0, nu_), (b, rng.randint(nu_ - nu_ // 4, nu_)), (nu_ - 1, nu_)):
            ck.count("tall_blocks")
            if not np.array_equal(rec.get_score_block(b, e), (U @ V.T)[b:e]):
                ck.violation("scores", f"block {b}:{e} of {nu_} users with {th} threads is not the product of the factors")


def loss_and_scores(ck, n):
    from irspack.recommenders import IALSRecommender
    rng = ck.rng
    cases, meta = [], {}
    for q in range(n):
        par = params(rng)
        K, nu_, ni = rng.choice([1, 2, 3]), rng.choice([1, 3, 5, 20, 40]), rng.choice([1, 3, 5, 18])
        X, U, V = ints(rng, nu_, ni, (1, 2, 3)), ints(rng, nu_, K, (-2, -1, 1, 2), .8), ints(rng, ni, K, (-2, -1, 1, 2), .8)
        feats = rng.choice(["", "", "u", "i", "ui"])
        kw = kwargs(par, n_components=K, train_epochs=1, solver_type=rng.choice(["CG", "CHOLESKY"] if feats else ["CG", "CHOLESKY", "IALSPP"]), n_threads=rng.choice([1, 2, 3]))
        PU, PV, W = np.zeros((nu_, K), int), np.zeros((ni, K), int), []
        ws = {}
        for s, side, m in (("u", "user", nu_), ("i", "item", ni)):
            if s in feats:
                nf = rng.randint(1, 3)
                F, w, lam10 = ints(rng, m, nf, (1, 2), .6), ints(rng, nf, K, (-1, 1, 2), .7), rng.choice([5, 10, 25])
                kw.update({f"{side}_features": sps.csr_matrix(F.astype(float)) if rng.random() < .5 else F, f"lambda_{side}_feature": lam10 / 10})
                ws[f"{side}_feature_weight"] = w.astype(F32)
                if s == "u":
                    PU = F @ w
                else:
                    PV = F @ w
                W += [[16 * lam10, v.tolist()] for v in w]
        try:
            rec = IALSRecommender(sps.csr_matrix(X.astype(float)), **kw)
            rec.trainer = rec._create_trainer()
        except Exception as e:
            ck.violation("failed", f"{kw}: {e}")
            continue
        core = core_of(rec)
        core.user, core.item = U.astype(F32), V.astype(F32)
        for k, v in ws.items():
            setattr(core, k, v)
        base = dict(K=K, V=V.tolist(), U=U.tolist(), X=X.tolist(), **par)
        users = [rng.randrange(nu_) for _ in range(rng.randint(1, 6))]
        b = rng.randrange(nu_ + 1)
        e = rng.randint(b, nu_)
        got = dict(loss=call(rec.trainer.compute_loss), users=(users, call(rec.get_score, np.array(users))), block=(b, e, call(rec.get_score_block, b, e)),
                   emb=call(rec.get_score_from_user_embedding, U.astype(F32)), iemb=call(rec.get_score_from_item_embedding, np.array(users), V.astype(F32)))
        cases += [dict(base, id=f"l{q}", kind="loss", PU=PU.tolist(), PV=PV.tolist(), W=W), dict(base, id=f"s{q}", kind="score")]
        meta[str(q)] = (kw, got)
        ck.count("loss_features" if feats else "loss_plain")
    ans = ck.expect("IALS", cases)
    for q, (kw, got) in meta.items():
        ck.traces += 2
        want = sum(ans["l" + q]["out"]) / 320
        g = got["loss"]
        if g[0] == "err" or not abs(g[1] - want) <= 1e-4 * max(1, abs(want)):
            ck.violation("loss", f"{kw}: compute_loss is {g[1:]}, the documented loss is {want}")
        Sc = np.array(ans["s" + q]["out"])
        us, gu = got["users"]
        b, e, gb = got["block"]
        for what, g, w in [("get_score", gu, Sc[us]), ("get_score_block", gb, Sc[b:e]), ("get_score_from_user_embedding", got["emb"], Sc), ("get_score_from_item_embedding", got["iemb"], Sc[us])]:
            if g[0] == "err" or not close(g[1], w, 1e-5):
                ck.violation("scores", f"{kw} {what}: {str(g[1:])[:200]} want {w.tolist()}"[:500])


def descent(ck, n):
    from irspack.recommenders import IALSRecommender
    rng = ck.rng
    cases, meta = [], {}
    for q in range(n):
        nu_, ni = rng.choice([3, 6, 12, 30]), rng.choice([2, 5, 9, 20])
        X = ints(rng, nu_, ni, (1, 1, 2, 5), rng.choice([.1, .3, .7]))
        if not X.any():
            continue
        feats = rng.choice(["", "", "u", "i", "ui"])
        st = rng.choice(["CG", "CHOLESKY"] + ([] if feats else ["IALSPP", "IALSPP"]))
        kw = dict(n_components=rng.choice([1, 2, 4, 7]), alpha0=rng.choice([.1, .3, 1.0]), reg=rng.choice([.01, .1, 1.0]), nu=rng.choice([0., .5, 1.]),
                  loss_type=rng.choice(["IALSPP", "ORIGINAL"]), solver_type=st, n_threads=rng.choice([1, 2, 5]), max_cg_steps=rng.choice([1, 2, 3]),
                  ialspp_subspace_dimension=rng.choice([1, 2, 3, 64]), random_seed=rng.randrange(1000), init_std=rng.choice([.1, 1.]), train_epochs=1)
        warm = rng.choice([0, 0, 2])
        for s, side, m in (("u", "user", nu_), ("i", "item", ni)):
            if s in feats:
                kw.update({f"{side}_features": ints(rng, m, 3, (1, 2), .5).astype(float), f"lambda_{side}_feature": rng.choice([.1, 1., 5.])})
        if feats:
            kw["feature_warmup_epochs"] = warm
        rec = IALSRecommender(sps.csr_matrix(X.astype(float)), **kw)
        rec.trainer = rec._create_trainer()
        L = []
        try:
            L.append(rec.trainer.compute_loss())
            for z in range(6):
                rec.trainer.run_epoch()
                L.append(rec.trainer.compute_loss())
                if feats and z < warm:
                    w = [np.abs(np.asarray(getattr(core_of(rec), f"{s}_feature_weight"))).max(initial=0) for s in ("user", "item")]
                    if any(w):
                        ck.violation("warm-up", f"{kw}: feature weights changed in epoch {z + 1} of {warm} warm-up epochs")
                elif feats and z == warm:
                    if not all(np.abs(np.asarray(getattr(core_of(rec), f"{s}_feature_weight"))).max(initial=0) > 0 for s, c in (("user", "u"), ("item", "i")) if c in feats and kw[f"{s}_features"].any() and np.abs(np.asarray(getattr(core_of(rec), s))).max() > 1e-3 and _relevant(kw[f"{s}_features"], np.asarray(getattr(core_of(rec), s)))):
                        ck.violation("warm-up", f"{kw}: feature weights unchanged after {warm} warm-up epochs")
        except Exception as e:
            ck.violation("failed", f"descent {kw}: {e}"[:500])
            continue
        top = max(map(abs, L))
        if not np.isfinite(L).all():
            ck.violation("descent", f"{kw}: the loss is not finite: {L}")
            continue
        cid = f"d{q}"
        meta[cid] = kw
        cases.append(dict(id=cid, kind="descent", L=[int(round(v / top * 10 ** 8)) for v in L], tol=3000))
        ck.count("descent_" + st)
    for cid, bad in ck.judge("IALS", cases).items():
        ck.violation("descent", f"{meta[cid]}: {bad[0]}"[:500])


def _relevant(F, Y):
    return np.abs(F.T @ Y).max(initial=0) > 1e-2


def scalings(ck, n):
    """Confidence scaling and nu_star are reparametrisations."""
    from irspack.recommenders import IALSRecommender
    rng = ck.rng
    cases, todo = [], {}
    for q in range(n):
        nu_, ni = rng.randint(2, 8), rng.randint(2, 8)
        X = ints(rng, nu_, ni, (1, 2, 5, 9), .5)
        if not X.any():
            continue
        par = params(rng)
        kw = kwargs(par, n_components=rng.choice([1, 2, 3]), train_epochs=rng.choice([1, 2]), solver_type="CHOLESKY", n_threads=1, random_seed=q, init_std=1.0)
        if rng.random() < .5:
            eps = rng.choice([.25, 1.0, 2.0, 10.0])
            Xs, Xl = sps.csr_matrix(X.astype(rng.choice([float, np.float32, np.int64]))), sps.csr_matrix(X.astype(float))
            Xl.data = np.log(1 + Xl.data / eps)
            N = ints(rng, 3, ni, (1, 2, 7), .5)
            Nl = sps.csr_matrix(N.astype(float))
            Nl.data = np.log(1 + Nl.data / eps)
            a = IALSRecommender(Xs, confidence_scaling="log", epsilon=eps, **kw).learn()
            b = IALSRecommender(Xl, **kw).learn()
            Nt = sps.csr_matrix(ints(rng, nu_, 2, (1, 2, 7), .5).astype(float))
            Ntl = Nt.copy()
            Ntl.data = np.log(1 + Ntl.data / eps)
            ck.count("log_scaling")
            ok = all(close(x, y, 2e-3) for x, y in [
                (a.get_user_embedding(), b.get_user_embedding()), (a.get_item_embedding(), b.get_item_embedding()),
                (a.compute_user_embedding(sps.csr_matrix(N.astype(float))), b.compute_user_embedding(Nl)),
                (a.compute_item_embedding(Nt), b.compute_item_embedding(Ntl))])
            if not ok:
                ck.violation("confidence", f"log confidence scaling (epsilon={eps}) is not log(1 + x / epsilon): {kw}", X.tolist())
            if not np.array_equal(Xs.toarray(), X):
                ck.violation("input-changed", "confidence scaling changed the training data")
        else:
            ns = rng.choice([0, 1, 2])
            cid = f"n{q}"
            cases.append(dict(id=cid, kind="scale", X=X.tolist(), ni=ni, nustar=ns, K=1, V=[[1]], **par))
            todo[cid] = (X, kw, ns)
    for cid, a in ck.expect("IALS", cases).items():
        X, kw, ns = todo[cid]
        (n1, d1), (n2, d2) = a["out"]
        ratio = (n1 / d1) / (n2 / d2)
        Xs = sps.csr_matrix(X.astype(float))
        a = IALSRecommender(Xs, nu_star=float(ns), **kw).learn()
        b = IALSRecommender(Xs, **dict(kw, reg=kw["reg"] * ratio)).learn()
        ck.traces += 1
        ck.count("nu_star")
        if not close(a.get_user_embedding(), b.get_user_embedding(), 2e-3) or not close(a.get_item_embedding(), b.get_item_embedding(), 2e-3):
            ck.violation("nu-star", f"nu_star={ns} is not the documented rescaling of reg (ratio {ratio}): {kw}", X.tolist())


def histories(ck, n):
    """Save, restore, pickle: equal content, equal everything."""
    from irspack.recommenders import IALSRecommender
    rng = ck.rng
    cases, runs = [], {}
    for q in range(n):
        ops, saved = [], 0
        for _ in range(rng.randint(3, 9)):
            o = rng.choice(["epoch", "epoch", "save", "load", "score", "fit", "loss", "pickle"])
            if o == "save":
                saved += 1
            if o == "load":
                if not saved:
                    continue
                ops.append([o, rng.randint(1, saved)])
                continue
            ops.append([o, 0])
        if not ops:
            continue
        cases.append(dict(id=f"h{q}", ops=ops))
    logs = ck.expect("TrainState", cases)
    for c in cases:
        X = ints(rng, 6, 5, (1, 2, 3), .5)
        X[0, 0] = 1
        feats = rng.random() < .5
        kw = dict(n_components=rng.choice([1, 3]), alpha0=.5, reg=.1, train_epochs=1, n_threads=1, random_seed=rng.randrange(99),
                  solver_type=rng.choice(["CG", "CHOLESKY"] + ([] if feats else ["IALSPP"])), ialspp_subspace_dimension=rng.choice([1, 2]),
                  loss_type=rng.choice(["IALSPP", "ORIGINAL"]))
        if feats:
            kw.update(user_features=ints(rng, 6, 2, (1, 2), .6).astype(float), lambda_user_feature=1.0, item_features=ints(rng, 5, 2, (1, 2), .6).astype(float), lambda_item_feature=.5)
        Xs = sps.csr_matrix(X.astype(float))
        N = sps.csr_matrix(ints(rng, 2, 5, (1, 2), .6).astype(float))

        def fresh():
            r = IALSRecommender(Xs, **kw)
            r.trainer = r._create_trainer()
            return r
        ref = {}                # content -> observable state, from an uninterrupted run

        def observe(r):
            o = [np.array(r.get_score_block(0, 6)), np.array(r.get_user_embedding()), np.array(r.get_item_embedding()), np.array(r.compute_user_embedding(N))]
            if feats:
                o += [np.array(r.compute_user_embedding_from_features(np.ones((1, 2)))), np.array(r.compute_item_embedding_from_features(np.ones((1, 2))))]
            return o
        r0 = fresh()
        for z in range(1 + max(logs[c["id"]]["log"])):
            ref[z] = observe(r0)
            r0.trainer.run_epoch()
        rec, slots, bad = fresh(), [], None
        for (op, arg), content in zip(c["ops"], logs[c["id"]]["log"]):
            try:
                if op == "epoch":
                    rec.trainer.run_epoch()
                elif op == "save":
                    b = io.BytesIO()
                    rec.trainer.save_state(b)
                    slots.append(b.getvalue())
                elif op == "load":
                    rec.trainer.load_state(io.BytesIO(slots[arg - 1]))
                elif op == "score":
                    rec.get_score(np.arange(6))
                elif op == "fit":
                    rec.compute_user_embedding(N)
                    rec.compute_item_embedding(sps.csr_matrix(np.ones((6, 1))))
                elif op == "loss":
                    rec.trainer.compute_loss()
                elif op == "pickle":
                    cp = pickle.loads(pickle.dumps(rec))
                    if not all(close(x, y, 1e-6) for x, y in zip(observe(cp), ref[content])):
                        bad = f"a pickled copy differs from its origin after {content} epochs"
            except Exception as e:
                bad = f"{op}: {type(e).__name__}: {e}"
            got = observe(rec)
            if bad is None and not all(np.array_equal(x, y) for x, y in zip(got, ref[content])):
                bad = f"after {op} the state is not that of {content} epochs"
            if bad:
                ck.violation("state", f"{kw['solver_type']} feats={feats} {c['ops']}: {bad}"[:500], X.tolist())
                break
        ck.traces += 1
        ck.count("histories")


def learn_runs(ck, n):
    """learn() = train_epochs epochs from the seed; reproducible; seeds matter."""
    from irspack.recommenders import IALSRecommender
    rng = ck.rng
    for q in range(n):
        X = sps.csr_matrix(ints(rng, 7, 6, (1, 2), .5).astype(float))
        if not X.nnz:
            continue
        kw = dict(n_components=rng.choice([2, 4]), alpha0=.5, reg=.1, n_threads=1, random_seed=q, init_std=rng.choice([.1, .1, 0.0]), train_epochs=rng.choice([1, 2, 3]), solver_type=rng.choice(["CG", "CHOLESKY", "IALSPP"]), max_cg_steps=1, ialspp_subspace_dimension=1)
        a, b = IALSRecommender(X, **kw).learn(), IALSRecommender(X, **kw).learn()
        m = IALSRecommender(X, **kw)
        m.trainer = m._create_trainer()
        init = np.array(m.get_item_embedding())
        for _ in range(kw["train_epochs"]):
            m.trainer.run_epoch()
        ck.count("learn_runs")
        A, B, M = (r.get_score_block(0, 7) for r in (a, b, m))
        if not np.array_equal(A, B):
            ck.violation("seed", f"two trainings with {kw} differ")
        if not np.array_equal(A, M):
            ck.violation("epochs", f"learn() is not {kw['train_epochs']} epochs: {kw}")
        if kw["init_std"] > 0:
            o = IALSRecommender(X, **dict(kw, random_seed=q + 1000))
            o.trainer = o._create_trainer()
            if np.array_equal(np.array(o.get_item_embedding()), init):
                ck.violation("seed", f"the seed does not matter: {kw}")
        elif init.any():
            ck.violation("init", "init_std=0 does not start from zero")
    # spread of the initial factors: init_std / sqrt(n_components)
    X = sps.csr_matrix(np.ones((2000, 50)))
    for std, K in [(.1, 4), (.5, 16)]:
        r = IALSRecommender(X, n_components=K, init_std=std, n_threads=1)
        r.trainer = r._create_trainer()
        s = np.array(r.get_user_embedding()).std() * math.sqrt(K) / std
        ck.count("init_spread")
        if not .9 < s < 1.1:
            ck.violation("init", f"initial factors have spread {s} times the documented one")


def rejected(ck):
    import irspack.recommenders as R
    X = sps.csr_matrix(np.array([[1., 0, 2], [0, 1, 1]]))
    I = lambda **k: R.IALSRecommender(X, **dict(dict(n_threads=1, train_epochs=1, n_components=2, alpha0=.5), **k))
    ok = I().learn()
    okf = I(user_features=np.eye(2), lambda_user_feature=1.0, item_features=np.eye(3), lambda_item_feature=1.0).learn()
    pk = pickle.loads(pickle.dumps(ok))
    c = lambda n, m: sps.csr_matrix(np.ones((n, m)))
    for what, fn in [
            ("unknown solver", lambda: I(solver_type="QR")), ("unknown loss", lambda: I(loss_type="HINGE")), ("unknown scaling", lambda: I(confidence_scaling="sqrt")),
            ("zero threads", lambda: I(n_threads=0).learn()),
            ("features with IALSPP", lambda: I(solver_type="IALSPP", user_features=np.eye(2), lambda_user_feature=1.0).learn()),
            ("features with ialspp", lambda: I(solver_type="ialspp", user_features=np.eye(2), lambda_user_feature=1.0).learn()),
            ("user features without regularisation", lambda: I(user_features=np.eye(2)).learn()),
            ("item features with negative regularisation", lambda: I(item_features=np.eye(3), lambda_item_feature=-1.0).learn()),
            ("too few user feature rows", lambda: I(user_features=np.ones((1, 2)), lambda_user_feature=1.0).learn()),
            ("too many item feature rows", lambda: I(item_features=np.ones((4, 2)), lambda_item_feature=1.0).learn()),
            ("unseen user of too few items", lambda: ok.compute_user_embedding(c(1, 2))), ("unseen user of too many items", lambda: ok.compute_user_embedding(c(1, 4))),
            ("unseen item of too few users", lambda: ok.compute_item_embedding(c(1, 1))), ("unseen item of too many users", lambda: ok.compute_item_embedding(c(3, 1))),
            ("scores past the last user", lambda: ok.get_score_block(0, 3)), ("reversed block", lambda: ok.get_score_block(2, 1)),
            ("features of an untrained kind", lambda: ok.compute_user_embedding(c(1, 3), user_features=np.ones((1, 2)))),
            ("item features of an untrained kind", lambda: ok.get_score_cold_user_with_item_features(c(1, 3), np.ones((1, 2)))),
            ("wrong feature width", lambda: okf.compute_user_embedding(c(1, 3), user_features=np.ones((1, 5)))),
            ("wrong item feature width", lambda: okf.compute_item_embedding_from_features(np.ones((1, 2)))),
            ("wrong number of feature rows", lambda: okf.compute_user_embedding(c(1, 3), user_features=np.ones((2, 2)))),
            ("training a deserialized model", lambda: pk.trainer.run_epoch()), ("loss of a deserialized model", lambda: pk.trainer.compute_loss())]:
        ck.count("rejections")
        if call(fn)[0] != "err":
            ck.violation("accepted", f"{what} is accepted")
    # additional items described by features are appended to the known ones
    F = np.array([[1., 0, 2], [0, 1, 1]])
    for m in (0, 1, 2):
        got = call(okf.get_score_cold_user_with_item_features, X, F[:m])
        u = okf.compute_user_embedding(X)
        want = np.concatenate([u @ okf.get_item_embedding().T] + ([u @ okf.compute_item_embedding_from_features(F[:m]).T] if m else []), axis=1)
        if got[0] == "err" or not close(got[1], want, 1e-5):
            ck.violation("additional-items", f"scores with {m} additional items are not known then additional scores: {got}")


def body(ck):
    irsload.load()
    exact(ck, ck.pick(900, 8000))
    first_steps(ck, ck.pick(200, 2000))
    wide(ck, ck.pick(80, 800))
    tall(ck)
    loss_and_scores(ck, ck.pick(120, 1200))
    descent(ck, ck.pick(150, 1500))
    scalings(ck, ck.pick(80, 600))
    histories(ck, ck.pick(60, 600))
    learn_runs(ck, ck.pick(20, 100))
    rejected(ck)
    ck.sample("half-epochs and unseen users solved exactly as integer fractions (Cramer) and compared with each native solver")
    ck.assumptions = ["integer factors, condition number below 500; compared at 1e-3 (single precision)",
                      "log confidence values and fractional nu are compared through equivalent runs, not computed in the model",
                      "TrainState histories use no warm-up epochs (the epoch count is not part of a saved state)"]


def main():
    run("C21", body)
