"""C02: the report does not depend on how the scores arrive; malformed streams are rejected."""
import copy

import numpy as np

import irsload
from checks.C01 import crowd
from evalcases import check_cases, gen_case, run_real, shapes, METRICS
from vlib import close, run


def malformed(rng, c):
    """change the stream of a matrix case in one or two ways"""
    c = copy.deepcopy(c)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(["width", "kind", "drop", "extra", "grow", "shrink", "cut", "none"])
        b = c["blocks"]
        j = rng.randrange(len(b)) if b else 0
        if k == "extra":
            b.insert(rng.randint(0, len(b)), dict(rows=rng.choice([0, 1, 2]), cols=c["ni"], kind="ok"))
        elif not b:
            continue
        elif k == "width":
            b[j]["cols"] = rng.choice([c["ni"] - 1, c["ni"] + 1, 2 * c["ni"], 0])
        elif k == "kind":
            b[j]["kind"] = rng.choice(["int", "half", "list", "1d"])
        elif k == "drop":
            b.pop(j)
        elif k == "grow":
            b[j]["rows"] += rng.choice([1, c["nu"]])
        elif k == "shrink" and b[j]["rows"]:
            b[j]["rows"] -= 1
        elif k == "cut":
            c["cuts"] = c["cuts"] + [rng.choice([0, c["ni"] + 1])]
    return c


def misfit(rng, c):
    c = copy.deepcopy(c)
    c["sh"] = s = shapes(c)
    k = rng.choice(["users", "users", "items", "items", "fit"])
    if k == "users":
        # the model has exactly one user too few / just enough
        need = c["off"] + c["nu"] - rng.choice([0, 1])
        if need < 1:
            return c
        c["train"] = c["train"][:need]
        c["sc"] = c["sc"][:need]
        s["mu"] = need
    elif k == "items":
        s["mi"] = c["ni"] + rng.choice([-1, 1])
        c["train"] = [[i for i in r if i < s["mi"]] for r in c["train"]]
        c["sc"] = [(r + [0])[:s["mi"]] for r in c["sc"]]
    return c


def body(ck):
    irsload.load()
    rng = ck.rng
    r = ck.tlc("EvaluatorMC", env={"UNIVERSE": "two"})
    prints = r.prints if ck.thorough else rng.sample(r.prints, 6000)
    cases, exp = [], {}
    for n, p in enumerate(prints):
        c = dict(p["c"], id=f"u{n}")
        cases.append(c)
        exp[c["id"]] = dict(ok=p["ok"], res=p["res"])
    ck.count("enumerated_streams", len(cases))
    check_cases(ck, cases, "stream", expected=exp, force=dict(stream="chunks"))
    ck.log("universe done")

    n = ck.pick(500, 5000)
    good = [gen_case(rng, f"g{q}", path=rng.choice(["matrix", "model", "cold", "coldmat"])) for q in range(n)]
    big = [gen_case(rng, f"w{q}", path=rng.choice(["matrix", "model", "cold"]), nu=rng.choice([17, 33, 130]),
                    ni=rng.choice([4, 11])) for q in range(ck.pick(25, 250))]
    ck.count("well_formed_inputs", len(good) + len(big))
    check_cases(ck, good + big, "stream", reps=3)
    mal = [dict(malformed(rng, gen_case(rng, f"m{q}", path=rng.choice(["matrix", "coldmat"]))), id=f"m{q}")
           for q in range(n)]
    ck.count("malformed_streams", len(mal))
    check_cases(ck, mal, "malformed", force=dict(stream="chunks", entry="get_scores"))
    fit = [dict(misfit(rng, gen_case(rng, f"f{q}", path="model", mask=rng.random() < 0.2)), id=f"f{q}")
           for q in range(n // 2)]
    ck.count("model_fit_cases", len(fit))
    check_cases(ck, fit, "misfit", force=dict(entry="get_scores"))
    whole_matrix(ck)
    crowd(ck, "stream", ck.pick(4, 16))
    ck.sample(mal[0])
    ck.assumptions = ["models return a fresh score array for every request"]


def whole_matrix(ck):
    """malformed whole matrices"""
    from irspack.evaluation import Evaluator
    from evalcases import to_csr
    from vlib import call
    rng = ck.rng
    for q in range(ck.pick(40, 200)):
        nu, ni = rng.choice([1, 3, 6]), rng.choice([2, 4, 7])
        ev = Evaluator(to_csr([[rng.randrange(ni)] for _ in range(nu)], ni), cutoff=1, n_threads=1,
                       mb_size=rng.choice([1, 2, 64]))
        for shape, dt in [((nu + 1, ni), "f8"), ((nu - 1, ni), "f8"), ((nu, ni + 1), "f4"), ((nu, ni - 1), "f8"),
                          ((nu * ni,), "f8"), ((nu, ni, 1), "f4"), ((nu, ni), "i8"), ((nu, ni), "f2"),
                          ((nu, ni), "c16"), ((nu, ni), "f8"), ((nu, ni), "f4")]:
            ok = shape == (nu, ni) and dt in ("f8", "f4")
            r = call(ev.get_score_from_score_matrix, np.zeros(shape, dtype=dt))
            ck.traces += 1
            if (r[0] == "ok") != ok or (r[0] == "err" and r[1] != "ValueError"):
                ck.violation("malformed/matrix", f"score matrix {shape} {dt} for {nu} users, {ni} items: {str(r)[:200]}",
                             dict(nu=nu, ni=ni, shape=shape, dtype=dt))


def main():
    run("C02", body)
