"""C03: exactly the seen / masked items leave the ranking."""
import warnings

import numpy as np
import scipy.sparse as sps

import irsload
from evalcases import NINF, check_cases, gen_case, to_csr
from vlib import call, run


def real_models(ck, X):
    from irspack.recommenders import (CosineKNNRecommender, CosineUserKNNRecommender, P3alphaRecommender,
                                      TopPopRecommender, IALSRecommender, DenseSLIMRecommender)
    rng = ck.rng
    k = rng.choice(["pop", "knn", "uknn", "p3", "ials", "dslim", "own"])
    if k == "own":
        return own_table(X, rng)
    if k == "pop":
        return TopPopRecommender(X).learn()
    if k == "knn":
        return CosineKNNRecommender(X, top_k=2, n_threads=1).learn()
    if k == "uknn":
        return CosineUserKNNRecommender(X, top_k=2, n_threads=1).learn()
    if k == "p3":
        return P3alphaRecommender(X, n_threads=1).learn()
    if k == "ials":
        return IALSRecommender(X, n_components=2, train_epochs=1, n_threads=1).learn()
    return DenseSLIMRecommender(X).learn()


def own_table(X, rng):
    """a user-defined recommender that hands out views of its precomputed scores"""
    from irspack.recommenders.base import BaseRecommender
    table = np.asarray([[rng.random() for _ in range(X.shape[1])] for _ in range(max(X.shape[0], 6))],
                       order=rng.choice(["C", "F"]))

    class Own(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, user_indices):
            u = np.asarray(user_indices)
            if len(u) and np.array_equal(u, np.arange(u[0], u[0] + len(u))):
                return table[u[0]:u[0] + len(u)]
            return table[u]

        def get_score_block(self, begin, end):
            return table[begin:end]

        def get_score_cold_user(self, X):
            return table[:X.shape[0]]

    return Own(X).learn()


def seen_removal(ck):
    rng = ck.rng
    cases, runs = [], {}
    for q in range(ck.pick(300, 3000)):
        nu, ni = rng.choice([1, 2, 4, 7]), rng.choice([2, 3, 5, 8])
        x = [[i for i in range(ni) if rng.random() < rng.choice([0.2, 0.6])] for _ in range(nu)]
        if not any(x):
            x[0] = [0]
        how = rng.choice(["users", "block", "cold"])
        if how == "block":
            b = rng.randint(0, nu)
            e = rng.randint(b, nu)
            users = list(range(b, e))
        else:
            users = [rng.randrange(nu) for _ in range(rng.randint(1, 6))]
        if not users:
            users, b, e, how = [0], 0, 1, "block"
        c = dict(id=f"s{q}", ni=ni, x=x, users=users)
        cases.append(c)
        runs[c["id"]] = (how, rng.choice(["csr", "csc"]), rng.choice([1.0, 2.5, 0.25, 0.25, -1.0]))
    exp = ck.expect("SeenRemoval", cases)
    for c in cases:
        how, fmt, val = runs[c["id"]]
        X = to_csr(c["x"], c["ni"], val, fmt)
        m = real_models(ck, X) if val > 0 else own_table(X, rng)    # the real models may assume positive weights
        users = c["users"]
        ck.count("models_own_scores", int(type(m).__name__ == "Own"))
        full = call(lambda: np.array(m.get_score(np.arange(len(c["x"]))), dtype=np.float64))
        data = dict(case=c, how=how, model=type(m).__name__)
        if full[0] == "err":
            ck.violation("seen/score", str(full), data)
            continue
        full = full[1]
        X0 = X.copy()
        if how == "users":
            r = call(m.get_score_remove_seen, np.asarray(users))
        elif how == "block":
            r = call(m.get_score_remove_seen_block, users[0], users[-1] + 1)
        else:
            prof = to_csr([c["x"][u] for u in users], c["ni"], val, rng.choice(["csr", "csc"]))
            p0 = prof.copy()
            base = call(lambda: np.array(m.get_score_cold_user(prof)))
            r = call(m.get_score_cold_user_remove_seen, prof)
            if (prof != p0).nnz:
                ck.violation("seen/mutation", "the caller's profile matrix was modified", data)
            if base[0] == "err":
                ok = r[0] == "err"
                if not ok:
                    ck.violation("seen/cold", "cold scores are refused but the seen-removing ones are not", data)
                continue
            rows = base[1]
        ck.traces += 1
        if r[0] == "err" and r[1] == "NotImplementedError" and how == "block" and \
                call(m.get_score_block, 0, 1)[0] == "err":
            continue            # this model does not offer blocks at all
        if r[0] == "err":
            ck.violation("seen/outcome", str(r), data)
            continue
        got = np.asarray(r[1])
        want = np.empty((len(users), c["ni"]))
        for k, row in enumerate(exp[c["id"]]["out"]):
            for i, cell in enumerate(row):
                if cell == NINF:
                    want[k, i] = -np.inf
                elif how == "cold":
                    want[k, i] = rows[k, i]
                else:
                    want[k, i] = full[cell // c["ni"], cell % c["ni"]]
        if got.shape != want.shape or not np.allclose(np.where(np.isinf(want), -1e30, want),
                                                      np.where(np.isinf(got), -1e30, got), rtol=1e-5, atol=1e-6):
            ck.violation("seen/" + how, f"{type(m).__name__}: got {got.tolist()} want {want.tolist()}", data)
        if (X != X0).nnz:
            ck.violation("seen/mutation", "the training matrix was modified", data)
        again = np.asarray(m.get_score(np.arange(len(c["x"]))))
        if not np.allclose(again, full, rtol=1e-6, atol=1e-9):
            ck.violation("seen/mutation", f"{type(m).__name__}: scores changed after a seen-removing request", data)


def body(ck):
    warnings.simplefilter("ignore")
    irsload.load()
    rng = ck.rng
    r = ck.tlc("EvaluatorMC", env={"UNIVERSE": "mask"})
    prints = r.prints if ck.thorough else rng.sample(r.prints, 5000)
    cases, exp = [], {}
    for n, p in enumerate(prints):
        c = dict(p["c"], id=f"u{n}")
        cases.append(c)
        exp[c["id"]] = dict(ok=p["ok"], res=p["res"])
    ck.count("enumerated_masks", len(cases))
    check_cases(ck, cases, "mask", expected=exp)
    ck.log("universe done")
    n = ck.pick(600, 6000)
    cases = [gen_case(rng, f"r{q}", path=rng.choice(["matrix", "model", "model", "cold", "coldmat"]),
                      reck="all" if rng.random() < .7 else None) for q in range(n)]
    ck.count("random_masks", n)
    check_cases(ck, cases, "mask", reps=2)
    seen_removal(ck)
    ck.assumptions = ["stored interactions are non-zero"]


def main():
    run("C03", body)
