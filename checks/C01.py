"""C01: ranking metrics equal their definition."""
import numpy as np

import irsload
from evalcases import COUNTS, METRICS, NINF, check_cases, compare, gen_case, rand_items, score_array, split, to_csr
from vlib import run


def many_items(ck):
    """a small case spread over a catalogue too large for small integers: items that are not scored
    change nothing but the catalogue-wide figures"""
    from irspack.evaluation import Evaluator
    rng = ck.rng
    cases = [gen_case(rng, f"w{q}", path="matrix", mask=False, reck="all") for q in range(ck.pick(12, 60))]
    exp = ck.expect("EvaluatorReplay", cases)
    for c in cases:
        ni = rng.choice([300, 40000, 70000])
        at = sorted(rng.sample(range(ni), c["ni"]))
        dtype = rng.choice([np.float32, np.float64])
        sc = np.full((c["nu"], ni), -np.inf, dtype=dtype)
        for u in range(c["nu"]):
            for i, v in zip(at, c["sc"][u]):
                sc[u, i] = -np.inf if v == NINF else v / 4 - 2
        ev = Evaluator(to_csr([[at[i] for i in g] for g in c["gt"]], ni), cutoff=c["cuts"][0], n_threads=rng.choice([1, 3]),
                       recall_with_cutoff=c["rwc"], mb_size=rng.choice([1, 128]))
        got = split(ev.get_scores_from_score_matrix(sc, c["cuts"]), c["cuts"])
        ck.traces += 1
        for q, g in enumerate(got):
            t = exp[c["id"]]["res"][q]
            bad = compare(g, t, {"hit", "recall", "ndcg", "map", "precision", "entropy", "appeared_item"})
            if abs(g["catalog_coverage"] * ni - t["appeared"]) > 1e-6:
                bad.append(f"catalog_coverage={g['catalog_coverage']} for {t['appeared']} of {ni} items")
            if bad:
                ck.violation("metrics/many-items", f"{ni} items, @{c['cuts'][q]} " + "; ".join(bad[:4]), dict(case=c, at=at, ni=ni))


def crowd(ck, key="metrics", n=None, reck=None):
    """the users of a small case, each many times over: every average and every distribution of the report
    stays what it was, and every count grows by that factor (the sums of the model are additive in the users:
    invariant BlockInvariance of spec/Evaluator.tla)"""
    from irspack.evaluation import Evaluator
    rng = ck.rng
    cases = [gen_case(rng, f"c{q}", path="matrix", nu=1 if q == 0 else rng.choice([1, 3, 5]), ni=rng.choice([3, 5, 9]), reck=reck)
             for q in range(n or ck.pick(8, 30))]
    for c in cases[:2]:      # everybody is shown the same items
        c.update(gt=[list(range(c["ni"]))] * c["nu"], sc=[[v % 7 for v in range(c["ni"])]] * c["nu"], hasmask=False, mask=[],
                 reck="all", rec=[], cuts=[c["ni"], max(1, c["ni"] // 2)])
    exp = ck.expect("EvaluatorReplay", cases)
    for q, c in enumerate(cases):
        times = [70000 // c["nu"], 5000][q % 2] + rng.randint(0, 9)
        who = list(range(c["nu"])) * times          # one after the other, or all copies of a user together
        if q % 4 < 2:
            who.sort()
        gt, mask, rec = ([c[k][u] for u in who] if c[k] else [] for k in ("gt", "mask", "rec" if c["reck"] == "user" else "mask"))
        sc = score_array(c["sc"], rng.choice([np.float32, np.float64]), {v: v / 8 - 1 for v in range(64)})[who]
        kw = dict(cutoff=c["cuts"][0], n_threads=rng.choice([1, 4]), recall_with_cutoff=c["rwc"],
                  mb_size=rng.choice([128, 4096, 10 ** 6]))
        if c["hasmask"]:
            kw["masked_interactions"] = to_csr(mask, c["ni"])
        if c["reck"] == "global":
            kw["recommendable_items"] = c["rec"][0]
        elif c["reck"] == "user":
            kw["per_user_recommendable_items"] = rec
        ev = Evaluator(to_csr(gt, c["ni"]), **kw)
        one = ev.get_score_from_score_matrix(sc)
        got = [one] + split(ev.get_scores_from_score_matrix(sc, c["cuts"]), c["cuts"])[1:]
        ck.traces += 1
        ck.count("crowds")
        for k, g in enumerate(got):
            t = exp[c["id"]]["res"][k]
            bad = compare(g, t, METRICS - COUNTS)
            if k == 0:
                bad += [f"{a}={one[a]} expected {t[b] * times}" for a, b in (("total_user", "total"), ("valid_user", "valid"))
                        if one[a] != t[b] * times]
            if bad:
                ck.violation(key + "/many-users", f"{c['nu']} users {times} times over, @{c['cuts'][k]} " + "; ".join(bad[:4]),
                             dict(case=c, times=times))


def body(ck):
    irsload.load()
    # (a) the exhaustive universe of the model, replayed into the code
    r = ck.tlc("EvaluatorMC", env={"UNIVERSE": "one"})
    cases, exp = [], {}
    for n, p in enumerate(r.prints):
        c = dict(p["c"], id=f"u{n}")
        cases.append(c)
        exp[c["id"]] = dict(ok=p["ok"], res=p["res"])
    ck.count("enumerated_universe", len(cases))
    ck.log("universe", len(cases))
    check_cases(ck, cases, "metrics", expected=exp, force=dict(entry="get_scores"))
    # (b) larger random inputs
    n = ck.pick(500, 6000)
    cases = [gen_case(ck.rng, f"r{q}", path=ck.rng.choice(["matrix", "matrix", "model", "cold"]),
                      mask=False) for q in range(n)]
    big = [gen_case(ck.rng, f"b{q}", path="matrix", mask=False, nu=ck.rng.choice([20, 40]),
                    ni=ck.rng.choice([25, 60])) for q in range(ck.pick(20, 200))]
    long = [gen_case(ck.rng, f"l{q}", path="matrix", mask=False, nu=ck.rng.choice([1, 2]), nlev=ck.rng.choice([3, 400]),
                     ni=ck.rng.choice([130, 300])) for q in range(ck.pick(8, 60))]
    for q, c in enumerate(long):
        c["cuts"] = [c["ni"], 70, 110][q % 3:] + c["cuts"][:1]
        c["gt"] = [rand_items(ck.rng, c["ni"], [.9, .6, .05][q % 3]) for _ in range(c["nu"])]
    ck.sample(cases[0])
    ck.count("random_inputs", len(cases) + len(big) + len(long))
    check_cases(ck, cases + big + long, "metrics", reps=2)
    many_items(ck)
    crowd(ck)
    ck.assumptions = ["scores are not NaN; ground truth holds no explicit zeros"]


def main():
    run("C01", body)
