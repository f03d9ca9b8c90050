"""C26: feature-aware implicit ALS."""
import io
import pickle

import numpy as np
import scipy.sparse as sps

import als
import irsload
from vlib import call, run

SIDE = dict(U="user", V="item", A="user_feature_weight", B="item_feature_weight")


class World:
    """One training problem; interprets the model's fit and ridge in double precision."""

    def __init__(self, rng, sides, warm):
        self.sides, self.warm = sides, warm
        self.K, self.nu_, self.ni = rng.choice([1, 2, 3, 5]), rng.choice([2, 4, 7, 19]), rng.choice([2, 3, 6, 17])
        large = rng.random() < .08                        # many factors, more than a batch of interactions
        if large:
            self.K, (self.nu_, self.ni) = rng.choice([3, 9, 20]), rng.choice([(3, 90), (140, 4), (66, 70)])
        r = np.random.RandomState(rng.randrange(2 ** 31))
        self.r = r
        self.fu, self.fi = rng.choice([1, 2, 4, 9]), rng.choice([1, 2, 5])
        self.X = (r.randint(1, 4, (self.nu_, self.ni)) * (r.rand(self.nu_, self.ni) < rng.choice([.3, .6]))).astype(float)
        if rng.random() < .3:
            self.X[rng.randrange(self.nu_)] = 0           # somebody without interactions
        self.kind = rng.choice(["real", "onehot"])
        self.FU, self.FI = self.profiles(self.nu_, self.fu), self.profiles(self.ni, self.fi)
        self.alpha0, self.reg, self.nu = rng.choice([.01, .1, .3, 1.]), rng.choice([.2, .5, 1.5]), rng.choice([0., .5, 1., 1.])
        self.lu, self.li = rng.choice([.02, .5, 1., 3.]), rng.choice([.05, .25, 1., 2.])
        self.orig = rng.random() < .5
        st = rng.choice(["CHOLESKY", "CG"])
        self.kw = dict(n_components=self.K, alpha0=self.alpha0, reg=self.reg, nu=self.nu, init_std=1.0, solver_type=st, max_cg_steps=self.K + 4,
                       prediction_time_max_cg_steps=self.K + 4, loss_type="ORIGINAL" if self.orig else "IALSPP", random_seed=rng.randrange(1000),
                       n_threads=rng.choice([1, 1, 2, 3, 8]), train_epochs=1)
        self.fmt = [self.form(rng) for _ in range(2)]
        self.cond = 1.0

    def profiles(self, n, m):
        return np.eye(m)[self.r.randint(0, m, n)] if self.kind == "onehot" else np.round(self.r.randn(n, m), 2) * (self.r.rand(n, m) < .8)

    @staticmethod
    def form(rng):
        dt = rng.choice([np.float64, np.float32])
        return rng.choice([lambda F: sps.csr_matrix(F.astype(dt)), lambda F: sps.csc_matrix(F.astype(dt)), lambda F: np.array(F, dtype=dt),
                           lambda F: np.asfortranarray(F.astype(dt)), lambda F: np.repeat(F.astype(dt), 2, axis=1)[:, ::2]])

    def build(self, featured=True):
        from irspack.recommenders import IALSRecommender
        kw = dict(self.kw)
        self.given = []
        if featured:
            for s, side, F, lam, f in (("u", "user", self.FU, self.lu, self.fmt[0]), ("i", "item", self.FI, self.li, self.fmt[1])):
                if self.sides[s]:
                    G = f(F)
                    self.given.append((G, G.copy()))
                    kw.update({f"{side}_features": G, f"lambda_{side}_feature": lam})
            if self.warm or self.sides["u"]:
                kw["feature_warmup_epochs"] = self.warm
        rec = IALSRecommender(sps.csr_matrix(self.X), **kw)
        rec.trainer = rec._create_trainer()
        return rec

    def untouched(self):
        d = lambda a: a.toarray() if sps.issparse(a) else a
        return all(np.array_equal(d(a), d(b)) for a, b in self.given)

    def weight(self, n, m):
        return self.reg * (self.alpha0 * m + n) ** self.nu

    def fit(self, rows, other, prior):
        other = np.asarray(other, dtype=float)
        out = np.zeros((len(rows), self.K))
        for j, x in enumerate(np.asarray(rows, dtype=float)):
            w = self.weight((x != 0).sum(), len(other))
            M = (other.T * (self.alpha0 + x)) @ other + w * np.eye(self.K)
            b = other.T @ np.where(x != 0, x + (self.alpha0 if self.orig else 0), 0)
            if prior is not None:
                b = b + w * prior[j]
            self.cond = max(self.cond, np.linalg.cond(M))
            out[j] = np.linalg.solve(M, b)
        return out

    def ridge(self, F, rows, factor, lam):
        w = np.array([self.weight((x != 0).sum(), rows.shape[1]) for x in rows])
        G = (F.T * w) @ F + lam * np.eye(F.shape[1])
        self.cond = max(self.cond, np.linalg.cond(G))
        return np.linalg.solve(G, (F.T * w) @ np.asarray(factor, dtype=float))

    def loss(self, now):
        """the documented objective"""
        pr = als.Problem(self.alpha0, self.reg, self.nu, self.orig)
        A, B = now["A"], now["B"]
        return pr.loss(self.X, now["U"], now["V"], None if A is None else self.FU @ A, None if B is None else self.FI @ B,
                       [(lam, M) for lam, M in ((self.lu, A), (self.li, B)) if M is not None])

    def define(self, d, val):
        """what the plan says the next version is, from the versions observed so far"""
        if d["f"] == "fit":
            rows, F, m = (self.X, self.FU, d["map"]) if d["b"] == "U" else (self.X.T, self.FI, d["map"])
            return self.fit(rows, val[d["other"]], F @ val[m] if m else None)
        if d["b"] == "A":
            return self.ridge(self.FU, self.X, val[d["of"]], self.lu)
        return self.ridge(self.FI, self.X.T, val[d["of"]], self.li)


def near(got, want, tol):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    return got.shape == want.shape and np.isfinite(got).all() and np.abs(got - want).max(initial=0) <= tol * max(1, np.abs(want).max(initial=0))


def blocks(rec, sides):
    core = rec.trainer_as_ials.core_trainer
    out = dict(U=np.array(rec.get_user_embedding(), dtype=float), V=np.array(rec.get_item_embedding(), dtype=float))
    for b, s in (("A", "u"), ("B", "i")):
        out[b] = np.array(getattr(core, SIDE[b]), dtype=float) if sides[s] else None
    return out


def questions(w, rec, val, cur):
    """All answers about known and new users and items, with what the model says they are."""
    U, V = val[cur["U"]], val[cur["V"]]
    A = val[cur["A"]] if w.sides["u"] else None
    B = val[cur["B"]] if w.sides["i"] else None
    r = w.r
    n, m = r.randint(1, 5), r.randint(1, 4)
    H = (r.randint(1, 4, (n, w.ni)) * (r.rand(n, w.ni) < .5)).astype(float)
    J = (r.randint(1, 4, (w.nu_, m)) * (r.rand(w.nu_, m) < .5)).astype(float)
    G, GI = w.profiles(n, w.fu), w.profiles(m, w.fi)
    Hs, Js, Gs, GIs = sps.csr_matrix(H), sps.csc_matrix(J), w.fmt[0](G), w.fmt[1](GI)
    e1, i1 = w.fit(H, V, None), w.fit(J.T, U, None)
    none = np.zeros((n, w.ni)), np.zeros((m, w.nu_))
    qs = [("get_score", lambda: rec.get_score(np.arange(w.nu_)), U @ V.T), ("get_score_block", lambda: rec.get_score_block(0, w.nu_), U @ V.T),
          ("compute_user_embedding", lambda: rec.compute_user_embedding(Hs), e1), ("get_score_cold_user", lambda: rec.get_score_cold_user(Hs), e1 @ V.T),
          ("compute_item_embedding", lambda: rec.compute_item_embedding(Js), i1)]
    e2 = w.fit(H, V, G @ A) if w.sides["u"] else None
    e3 = w.fit(none[0], V, G @ A) if w.sides["u"] else None
    i2 = w.fit(J.T, U, GI @ B) if w.sides["i"] else None
    i3 = w.fit(none[1], U, GI @ B) if w.sides["i"] else None
    S = lambda e: None if e is None else e @ V.T
    qs += [("compute_user_embedding with features", lambda: rec.compute_user_embedding(Hs, user_features=Gs), e2),
           ("compute_user_embedding_from_features", lambda: rec.compute_user_embedding_from_features(Gs), e3),
           ("get_score_cold_user with features", lambda: rec.get_score_cold_user(Hs, user_features=Gs), S(e2)),
           ("get_score_cold_user_from_features", lambda: rec.get_score_cold_user_from_features(Gs), S(e3)),
           ("compute_item_embedding with features", lambda: rec.compute_item_embedding(Js, item_features=GIs), i2),
           ("compute_item_embedding_from_features", lambda: rec.compute_item_embedding_from_features(GIs), i3),
           ("get_score_cold_user_with_item_features", lambda: rec.get_score_cold_user_with_item_features(Hs, GIs),
            None if i3 is None else np.concatenate([e1 @ V.T, e1 @ i3.T], axis=1))]
    bad = []
    for what, f, want in qs:
        g = call(f)
        if want is None:
            if g[0] == "ok":
                bad.append((f"{what} answers without trained features", 0))
        elif g[0] == "err":
            bad.append((f"{what} failed: {g[1]}: {g[2]}"[:200], 0))
        elif not near(g[1], want, 2e-3):
            bad.append((f"{what} is {np.asarray(g[1]).tolist()} instead of {np.round(want, 4).tolist()}"[:400], 1))
    return bad


def replay(ck, h):
    """One history of the model on the real trainer; every version is compared with its definition."""
    w = World(ck.rng, h["sides"], h["warm"])
    rec = w.build()
    now = blocks(rec, w.sides)
    val = {1: now["U"], 2: now["V"], 3: now["A"], 4: now["B"]}
    plain = blocks(w.build(False), dict(u=False, i=False)) if any(w.sides.values()) else now
    if not (np.array_equal(plain["U"], now["U"]) and np.array_equal(plain["V"], now["V"])):
        return "training starts from other factors than without features", w
    for b in "AB":
        if now[b] is not None and now[b].any():
            return "the feature maps do not start at zero", w
    done, slots, asked = 4, [], 0
    for o in h["ops"]:
        bad = []
        if o["op"] == "epoch":
            rec.trainer.run_epoch()
            now = blocks(rec, w.sides)
            while done < len(h["plan"]) and done + 1 <= max(o["after"].values()):
                d = h["plan"][done]
                done += 1
                val[done] = now[d["b"]]
                want = w.define(d, val)
                ck.count(d["f"])
                if not near(val[done], want, 2e-3):
                    bad.append((f"{d['f']} {d['b']} ({d}) gave {val[done].tolist()} instead of {np.round(want, 4).tolist()}"[:500], 1))
            L, want = rec.trainer.compute_loss(), w.loss(now)
            if not abs(L - want) <= 1e-4 * max(1, abs(want)):
                bad.append((f"the loss is {L} instead of the documented {want}", 0))
        elif o["op"] == "save":
            b = io.BytesIO()
            rec.trainer.save_state(b)
            slots.append(b.getvalue())
        elif o["op"] == "load":
            rec.trainer.load_state(io.BytesIO(slots[o["arg"] - 1]))
        elif o["op"] == "ask":
            bad += questions(w, rec, val, h["asks"][asked])
            asked += 1
            ck.count("questions")
        elif o["op"] == "copy":
            bad += [("pickled copy: " + t, n) for t, n in questions(w, pickle.loads(pickle.dumps(rec)), val, o["after"])]
            ck.count("copies")
        now = blocks(rec, w.sides)
        for b, n in o["after"].items():
            if now[b] is not None and not np.array_equal(now[b], val[n]):
                bad.append((f"after {o['op']} {b} is not version {n}", 0))
        if not w.untouched():
            bad.append(("the given features were modified", 0))
        if w.cond > 400:          # single precision does not resolve this problem
            bad = [x for x in bad if not x[1]]
        if bad:
            return f"{o['op']}: " + "; ".join(t for t, _ in bad[:3]), w
        if w.cond > 400:
            ck.count("ill_conditioned")
            return None, w
    return None, w


def ordinary(ck, n):
    """Within the warm-up, and without features at all, the model is the ordinary one; sparse and dense profiles mean the same."""
    from irspack.recommenders import IALSRecommender
    rng = ck.rng
    for q in range(n):
        sides = rng.choice([dict(u=True, i=True), dict(u=True, i=False), dict(u=False, i=True)])
        w = World(rng, sides, rng.randint(1, 4))
        e = rng.randint(1, w.warm)
        kw = dict(w.kw, train_epochs=e, n_threads=1)
        feats = lambda f: {k: v for s, side, F, lam in (("u", "user", w.FU, w.lu), ("i", "item", w.FI, w.li)) if sides[s]
                           for k, v in ((f"{side}_features", f(F)), (f"lambda_{side}_feature", lam))}
        X = sps.csr_matrix(w.X)
        a = IALSRecommender(X, **kw).learn()
        b = IALSRecommender(X, feature_warmup_epochs=w.warm, **feats(w.fmt[0]), **kw).learn()
        ck.traces += 1
        ck.count("warm_ups")
        if not near(a.get_score_block(0, w.nu_), b.get_score_block(0, w.nu_), 1e-5):
            ck.violation("warm-up", f"{e} of {w.warm} warm-up epochs do not train the ordinary model: {kw} {sides}", dict(X=w.X.tolist()))
        kw["train_epochs"], late = e + 2, rng.choice([0, 1])
        c, d = (IALSRecommender(X, feature_warmup_epochs=late, **feats(f), **kw).learn() for f in (sps.csr_matrix, np.array))
        if not near(c.get_score_block(0, w.nu_), d.get_score_block(0, w.nu_), 5e-3):
            ck.violation("storage", f"sparse and dense features train different models: {kw} {sides}", dict(X=w.X.tolist()))
        f = IALSRecommender(X, **feats(np.array), **kw).learn()
        if sides["u"] and np.abs(w.FU).sum() > 0 and w.X.any() and np.array_equal(f.get_user_embedding(), IALSRecommender(X, **kw).learn().get_user_embedding()):
            ck.violation("ignored", f"user features have no effect: {kw}", dict(X=w.X.tolist()))


def evaluated(ck, n):
    """An evaluation with new items ranks exactly what the model says about them."""
    from irspack.evaluation import EvaluatorWithColdUser
    rng = ck.rng
    for q in range(n):
        w = World(rng, dict(u=rng.random() < .5, i=True), 0)
        w.kind = "real"
        rec = w.build()
        for _ in range(2):
            rec.trainer.run_epoch()
        nn, m = rng.randint(1, 9), rng.randint(1, 4)
        H = (w.r.rand(nn, w.ni) < .4).astype(float)
        T = (w.r.rand(nn, w.ni + m) < .4).astype(float)
        GI = w.fmt[1](w.profiles(m, w.fi))
        S = np.array(rec.get_score_cold_user_with_item_features(sps.csr_matrix(H), GI), dtype=np.float64)
        S[:, :w.ni][H > 0] = -np.inf
        rows = np.sort(np.where(np.isfinite(S), S, np.nan), axis=1)
        if np.nanmin(np.abs(np.diff(rows, axis=1)), initial=1) < 1e-6:       # near ties fall either way
            ck.count("near_ties")
            continue
        cut = rng.randint(1, w.ni + m)
        kw = dict(cutoff=cut, n_threads=1, mb_size=rng.choice([1, 2, 128]))
        got = call(EvaluatorWithColdUser(sps.csr_matrix(H), sps.csr_matrix(T), cold_item_features=GI, **kw).get_score, rec)
        want = EvaluatorWithColdUser(sps.csr_matrix(H), sps.csr_matrix(T), cold_item_features=GI, **kw).get_score_from_score_matrix(S)
        ck.traces += 1
        ck.count("evaluations")
        if got[0] != "ok" or any(not np.isclose(got[1][k], v, equal_nan=True) for k, v in want.items()):
            ck.violation("evaluation", f"{str(got)[:300]} instead of {want}", dict(H=H.tolist(), T=T.tolist()))


def body(ck):
    irsload.load()
    hist = ck.tlc("FeatureALSMC").prints
    if ck.thorough:
        ck.tlc("FeatureALSMC", "FeatureALSDeep")
    ck.log("model checked, histories", len(hist))
    useful = [h for h in hist if any(o["op"] == "epoch" for o in h["ops"])]
    for h in ck.rng.sample(useful, min(len(useful), ck.pick(700, 6000))):
        r = call(replay, ck, h)
        ck.traces += 1
        bad = f"{r[1]}: {r[2]}" if r[0] == "err" else r[1][0]
        if bad:
            ops = [o["op"] + (str(o["arg"]) if o["arg"] else "") for o in h["ops"]]
            kw = r[1][1].kw if r[0] == "ok" else ""
            ck.violation("history/" + bad[:12], f"features {h['sides']} warm-up {h['warm']} {ops} {kw}: {bad}"[:700], dict(h=h, X=r[1][1].X.tolist() if r[0] == "ok" else []))
            if ck.nviol > 8:
                break
    ordinary(ck, ck.pick(60, 500))
    evaluated(ck, ck.pick(60, 500))
    ck.sample([o["op"] for o in useful[len(useful) // 2]["ops"]])
    ck.assumptions = ["systems of condition number below 400, compared at 2e-3 (single precision)", "alpha0 > 0",
                      "loading a snapshot is specified without warm-up (the epoch count is not part of a snapshot)"]


def main():
    run("C26", body)
