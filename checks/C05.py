"""C05: cold-user evaluation."""
import copy

import numpy as np
import scipy.sparse as sps

import irsload
from evalcases import check_cases, gen_case, shapes, score_array, to_csr
from vlib import call, run


def gen(rng, cid):
    ni = rng.choice([2, 3, 5, 9])
    ncold = rng.choice([0, 0, 1, 2, 3])
    ncold = min(ncold, ni - 1)
    path = rng.choice(["cold", "cold", "coldmat"])
    c = gen_case(rng, cid, path=path, ni=ni, ncold=ncold,
                 cold=rng.choice(["yes", "none"]) if ncold and path == "cold" else None)
    if ncold and c["hasmask"] and rng.random() < 0.5:
        # mask in the width of the known interactions
        c["mask"] = [[i for i in r if i < ni - ncold] for r in c["mask"]]
        c["sh"] = shapes(c)
        c["sh"]["mc"] = ni - ncold
    return c


def broken(rng, c):
    c = copy.deepcopy(c)
    s = c["sh"] = shapes(c)
    k = rng.choice(["inr", "inc", "fr", "mi", "mask", "feat", "none"])
    if k == "inr":
        if rng.random() < .5 and len(c["train"]) > 1:
            c["train"].pop()
        else:
            c["train"].append([])
        s["inr"] = len(c["train"])
    elif k == "inc":
        s["inc"] = max(1, s["inc"] + rng.choice([-1, 1, 2]))
        c["train"] = [[i for i in r if i < s["inc"]] for r in c["train"]]
        if rng.random() < .7:
            s["mi"] = s["inc"]
    elif k == "fr":
        s["feat"] = True
        s["fr"] = max(0, s["fr"] + rng.choice([-1, 1, 2]))
    elif k == "mi":
        s["mi"] = max(1, s["mi"] + rng.choice([-1, 1]))
    elif k == "mask" and c["hasmask"]:
        if rng.random() < .5:
            s["mc"] += rng.choice([-1, 1])
            c["mask"] = [[i for i in r if i < s["mc"]] for r in c["mask"]]
        else:
            c["mask"].append([])
            s["mr"] += 1
    elif k == "feat" and s["feat"]:
        s["feat"] = False
        s["fr"] = 0
    return c


def faithful_batches(ck):
    """the model receives exactly the known interactions, in order and in batches of mb_size"""
    from irspack.evaluation import EvaluatorWithColdUser
    from irspack.recommenders.base import BaseRecommender
    rng = ck.rng
    cases = []
    for q in range(ck.pick(150, 1500)):
        nu, ni, mb = rng.choice([1, 2, 5, 9, 13]), rng.choice([2, 4]), rng.choice([1, 2, 3, 4, 100])
        ncold = rng.choice([0, 0, 1, 2])
        cap = rng.choice(["yes", "none"]) if ncold else "none"
        hist = [[i for i in range(ni) if rng.random() < .5] for _ in range(nu)]
        gt = to_csr([[i for i in range(ni + ncold) if rng.random() < .5] for _ in range(nu)], ni + ncold)
        seen, feats = [], []
        fx = np.arange(ncold * 3, dtype=float).reshape(ncold, 3)

        class M(BaseRecommender, register_class=False):
            def _learn(self):
                pass

            def get_score(self, u):
                raise RuntimeError("known-user scores requested for unseen users")

            def get_score_cold_user(self, X):
                seen.append(sps.csr_matrix(X).toarray())
                return np.ones((X.shape[0], ni))

        if cap == "yes":
            def both(self, X, f):
                seen.append(sps.csr_matrix(X).toarray())
                feats.append(np.asarray(f.todense() if sps.issparse(f) else f))
                return np.ones((X.shape[0], ni + ncold))
            M.get_score_cold_user_with_item_features = both
        kw = dict(cold_item_features=fx) if ncold else {}
        X = to_csr(hist, ni, 2.5)
        ev = EvaluatorWithColdUser(X, gt, cutoff=1, n_threads=1, mb_size=mb, **kw)
        r = call(ev.get_score, M(sps.csr_matrix((3, ni))))
        if r[0] == "err":
            ck.violation("cold/outcome", str(r), dict(hist=hist, mb=mb))
            continue
        cases.append(dict(id=f"b{q}", nu=nu, mb=mb, hist=hist,
                          got=[[[i for i in range(ni) if row[i]] for row in blk] for blk in seen],
                          vals=bool(all(np.isin(b, [0, 2.5]).all() for b in seen)),
                          feats=bool(all(np.array_equal(f, fx) for f in feats)) and
                          (len(feats) == len(seen) if cap == "yes" else not feats)))
    bad = ck.judge("ColdBatches", cases)
    for c in cases:
        if c["id"] in bad:
            ck.violation("cold/batches", str(bad[c["id"]]), c)


def body(ck):
    irsload.load()
    rng = ck.rng
    r = ck.tlc("EvaluatorMC", env={"UNIVERSE": "cold"})
    prints = r.prints if ck.thorough else rng.sample(r.prints, min(5000, len(r.prints)))
    cases, exp = [], {}
    for n, p in enumerate(prints):
        c = dict(p["c"], id=f"u{n}")
        cases.append(c)
        exp[c["id"]] = dict(ok=p["ok"], res=p["res"])
    ck.count("enumerated_cold", len(cases))
    check_cases(ck, cases, "cold", expected=exp)
    ck.log("universe done")
    n = ck.pick(700, 7000)
    cases = [gen(rng, f"r{q}") for q in range(n)]
    ck.count("random_cold", n)
    check_cases(ck, cases, "cold", reps=2)
    bad = [dict(broken(rng, gen(rng, f"x{q}")), id=f"x{q}") for q in range(n // 2)]
    ck.count("ill_formed_cold", len(bad))
    check_cases(ck, bad, "ill-formed")
    faithful_batches(ck)
    ck.sample(bad[0])


def main():
    run("C05", body)
