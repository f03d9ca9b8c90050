"""C24: tuning ranges and thread settings."""
import inspect
import itertools
import os
import signal

import irsload
from vlib import call, run

CH = {"a": "aZq07kA", "d": "-_", "o": "@ .\n|é/"}
SCALES = [4.0, 4.0, 2.0 ** 42, 2.0 ** -12]      # float ranges: the size of the model's unit


class Slow(Exception):
    pass


def timed(f, *a, **k):
    def boom(*_):
        raise Slow()
    signal.signal(signal.SIGALRM, boom)
    signal.setitimer(signal.ITIMER_REAL, 10)
    try:
        return call(f, *a, **k)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def name_checks(ck, prints):
    from irspack.optimization import (CategoricalRange, LogUniformFloatRange, LogUniformIntegerRange, UniformFloatRange,
                                      UniformIntegerRange)
    mk = [lambda n: UniformFloatRange(n, 0.0, 1.0), lambda n: LogUniformFloatRange(n, 1.0, 2.0), lambda n: UniformIntegerRange(n, 1, 3),
          lambda n: LogUniformIntegerRange(n, 1, 3), lambda n: CategoricalRange(n, [1, 2])]
    rng = ck.rng

    def one(name, ok, cls):
        r = timed(cls, name)
        ck.traces += 1
        want = "ok" if ok else "err"
        if r[0] != want or (r[0] == "err" and r[1] != "ValueError") or (r[0] == "ok" and r[1].name != name):
            ck.violation("name/" + ("accepted" if r[0] == "ok" else r[0]),
                         f"name {name!r} should be {'accepted' if ok else 'rejected with ValueError'}, got {r[:3]}", dict(name=name))
            return "Slow" not in r
        return True
    n = 0
    for p in prints:
        for _ in range(ck.pick(1, 4)):
            one("".join(rng.choice(CH[x]) for x in p["s"]), p["ok"], rng.choice(mk))
            n += 1
    for length in (10, 40, 200):       # long names: a decision has to come as well
        for tail, ok in [("", True), ("@", False), ("\n", False), (" b", False), ("-_9", True)]:
            for body in ("a", "ab_", "a-1"):
                if not one((body * length)[:length] + tail, ok, rng.choice(mk)):
                    return
                n += 1
    ck.count("names", n)


def range_checks(ck, prints):
    import optuna
    from irspack.optimization import LogUniformFloatRange, LogUniformIntegerRange, UniformFloatRange, UniformIntegerRange
    rng = ck.rng
    for p in prints:
        r = p["r"]
        kind, lo, hi, step = r["kind"], r["low"], r["high"], r["step"]
        SCALE = rng.choice(SCALES)
        if kind == "ufloat":
            r0 = call(UniformFloatRange, "par", lo / SCALE, hi / SCALE)
        elif kind == "lfloat":
            r0 = call(LogUniformFloatRange, "par", lo / SCALE, hi / SCALE)
        elif kind == "lint":
            r0 = call(LogUniformIntegerRange, "par", lo, hi)
        else:
            r0 = call(UniformIntegerRange, "par", lo, hi, *([step] if step != 1 or rng.random() < .5 else []))
        ck.traces += 1
        if (r0[0] == "ok") != p["ok"] or (r0[0] == "err" and r0[1] != "ValueError"):
            ck.violation("range/bounds", f"{kind} [{lo}, {hi}]: construction gave {r0[:3]}", p)
            continue
        if not p["ok"]:
            continue
        prefix = rng.choice(["", "", "xx_", "p"])
        want = p["req"]
        study = optuna.create_study(sampler=optuna.samplers.RandomSampler(seed=rng.randrange(10**6)))
        seen = set()
        for _ in range(ck.pick(6, 30)):
            t = study.ask()
            v = call(r0[1].suggest, t, prefix) if prefix or rng.random() < .5 else call(r0[1].suggest, t)
            if v[0] != "ok":
                ck.violation("range/suggest", f"{kind} [{lo}, {hi}] step {step}: suggest failed {v[1:]}", p)
                break
            v = v[1]
            d = t.distributions
            if list(d) != [prefix + "par"]:
                ck.violation("range/name", f"asked the trial for {list(d)} instead of {prefix}par", p)
                break
            d = d[prefix + "par"]
            isint = isinstance(d, optuna.distributions.IntDistribution)
            sc = 1 if isint else SCALE
            got = dict(type="int" if isint else "float", low=d.low * sc, high=d.high * sc, log=bool(d.log), step=int(d.step or 0))
            if got != want or isint != (type(v) is int) or t.params[prefix + "par"] != v:
                ck.violation("range/request", f"{kind} [{lo}, {hi}] step {step} (units of 1/{sc:g}): requested {got} value {v!r}, should be {want}", p)
                break
            seen.add(v)
            if not lo <= v * sc <= hi or (isint and (v - lo) % step):
                ck.violation("range/value", f"{kind} [{lo}, {hi}] step {step}: suggested {v}", p)
                break
    ck.count("ranges", len(prints))
    from irspack.optimization import CategoricalRange
    for choices in (["NONE", "TF_IDF", "BM_25"], [1, 2, 3], [True, False], [0.5], ["x"], [None, 3]):
        for prefix in ("", "p_"):
            study = optuna.create_study(sampler=optuna.samplers.RandomSampler(seed=1))
            seen = []
            for _ in range(40):
                t = study.ask()
                v = CategoricalRange("cat", choices).suggest(t, prefix) if prefix else CategoricalRange("cat", choices).suggest(t)
                d = t.distributions
                ck.traces += 1
                if list(d) != [prefix + "cat"] or sorted(map(repr, d[prefix + "cat"].choices)) != sorted(map(repr, choices)) \
                        or v is not t.params[prefix + "cat"] and v != t.params[prefix + "cat"]:
                    ck.violation("range/categorical", f"choices {choices} prefix {prefix!r}: {d} -> {v!r}", dict(choices=choices))
                    return
                seen.append(repr(v))
            if set(seen) != set(map(repr, choices)):
                ck.violation("range/categorical", f"choices {choices}: suggested {sorted(set(seen))}", dict(choices=choices))


def thread_checks(ck, prints):
    from irspack._threading import get_n_threads
    rng = ck.rng
    old = os.environ.get("IRSPACK_NUM_THREADS_DEFAULT")
    bad = ["abc", "four", "1.5", "3 4", "0x4", "2,", "None", "1e1", "--3"]
    try:
        for p in prints:
            for rep in range(4):
                e = p["env"]
                if not e["set"]:
                    os.environ.pop("IRSPACK_NUM_THREADS_DEFAULT", None)
                elif e["ok"]:
                    os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = ["%d", " %d ", "0%d", "%d\n"][rep] % e["n"]
                else:
                    os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = bad[(rep + rng.randrange(9)) % 9]
                arg = None if p["arg"] == -1 else p["arg"]
                r = call(get_n_threads, arg)
                want = p["out"]["n"] if (arg is not None or e["set"]) else (os.cpu_count() or 1)
                good = (r[0] == "ok" and type(r[1]) is int and r[1] == want) if p["out"]["ok"] else (r[0] == "err" and r[1] == "ValueError")
                ck.traces += 1
                if not good:
                    ck.violation("threads", f"n_threads={arg} environment={os.environ.get('IRSPACK_NUM_THREADS_DEFAULT')!r}: got {r[:3]}, "
                                 f"should be {want if p['out']['ok'] else 'ValueError'}", p)
        for n in (65, 200, 5000):
            for arg, env in ((n, None), (n, 2), (None, n)):
                os.environ.pop("IRSPACK_NUM_THREADS_DEFAULT", None)
                if env is not None:
                    os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = str(env)
                r = call(get_n_threads, arg)
                ck.traces += 1
                if r != ("ok", n):
                    ck.violation("threads", f"n_threads={arg} environment={env}: got {r[:3]}, should be {n}")
        # a machine that does not tell its number of processors has one
        os.environ.pop("IRSPACK_NUM_THREADS_DEFAULT", None)
        cpus = os.cpu_count
        try:
            for n in (None, 1, 3, 64):
                os.cpu_count = lambda: n
                r = call(get_n_threads, None)
                if hasattr(os, "process_cpu_count") or r == ("ok", n or 1):
                    continue
                ck.violation("threads", f"{n} processors: got {r[:3]}")
        finally:
            os.cpu_count = cpus
    finally:
        if old is None:
            os.environ.pop("IRSPACK_NUM_THREADS_DEFAULT", None)
        else:
            os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = old
    ck.count("thread_settings", len(prints) * 4)


def classes():
    from irspack.recommenders.base import BaseRecommender, RecommenderMeta
    out = []
    for n, c in sorted(RecommenderMeta.recommender_name_vs_recommender_class.items()):
        if isinstance(getattr(c, "default_tune_range", None), list) and not inspect.isabstract(c) and c.__module__.startswith("irspack"):
            out.append(c)
    return out


def corner(s):
    """The extreme values a default range can suggest, found by asking it."""
    import optuna
    t = optuna.create_study(sampler=optuna.samplers.RandomSampler(seed=1)).ask()
    s.suggest(t)
    d = t.distributions[s.name]
    return list(d.choices) if isinstance(d, optuna.distributions.CategoricalDistribution) else [d.low, d.high]


def inside(d, v, s):
    import optuna
    if isinstance(d, optuna.distributions.CategoricalDistribution):
        return v in d.choices
    return d.low <= v <= d.high and (not hasattr(s, "low") or (d.low >= s.low and d.high <= s.high))


def suggest_checks(ck):
    import numpy as np
    import optuna
    import scipy.sparse as sps
    rng = ck.rng
    cases = []
    X = sps.csr_matrix(np.array([[1, 0, 1, 1], [0, 1, 1, 0], [1, 1, 0, 1.]]))
    cl = classes()
    if len(cl) < 12:
        ck.violation("models", f"only {[c.__name__ for c in cl]} have default tuning ranges")
    for cls in cl:
        names = [s.name for s in cls.default_tune_range]
        by = {s.name: s for s in cls.default_tune_range}
        subsets = [list(x) for n in range(len(names) + 1) for x in itertools.combinations(names, n)]
        if len(subsets) > 20:
            subsets = rng.sample(subsets, 20)
        for fixed in subsets:
            fp = {k: rng.choice([1, 0.5, None]) for k in fixed}
            fp.update({"n_threads": 1, "not_a_tuned_one": 0} if rng.random() < .5 else {})
            before = dict(fp)
            study = optuna.create_study(sampler=optuna.samplers.RandomSampler(seed=rng.randrange(10**6)))
            t = study.ask()
            r = call(cls.default_suggest_parameter, t, fp)
            ok = r[0] == "ok" and isinstance(r[1], dict)
            vals = acc = True
            if ok:
                vals = all(t.params.get(k, "missing") == v and (k not in by or inside(t.distributions[k], v, by[k])) for k, v in r[1].items()) and fp == before
                acc = call(cls, X, **r[1])[0] == "ok"
            cases.append(dict(id=f"{cls.__name__}.{len(cases)}", range=names, fixed=list(fp), ok=ok, err="" if ok else str(r[1:3])[:100],
                              returned=list(r[1]) if ok else [], trial=list(t.params), values=bool(vals), accepted=bool(acc)))
    Y = sps.csr_matrix(np.random.RandomState(5).randint(0, 2, (12, 9)).astype(float))
    for cls in cl:
        ends = {s.name: corner(s) for s in cls.default_tune_range}
        picks = [{k: v[0] for k, v in ends.items()}, {k: v[-1] for k, v in ends.items()}]
        picks += [{k: rng.choice(v) for k, v in ends.items()} for _ in range(ck.pick(4, 20))]
        fast = {"train_epochs": 1, "n_threads": 2, "n_iter": 2}
        fast = {k: v for k, v in fast.items() if k in inspect.signature(cls.__init__).parameters and k not in ends}
        for e in picks:
            r = call(lambda: cls(Y, **e, **fast).learn().get_score(np.arange(12)))
            ck.count("corners")
            good = r[0] == "ok" and np.isfinite(np.asarray(r[1], dtype=float)).all()
            cases.append(dict(id=f"{cls.__name__}.{len(cases)}", range=list(ends), fixed=[], ok=True, err="", returned=list(ends), trial=list(ends),
                              values=True, accepted=bool(good)))
            if not good:
                ck.log(cls.__name__, e, str(r)[:300])
    for k, v in ck.judge("Suggest", cases).items():
        ck.violation("default/" + k.split(".")[0], f"{k}: " + "; ".join(v), next(c for c in cases if c["id"] == k))
    ck.count("models", len(cl))
    ck.count("default_suggestions", len(cases))
    ck.sample(cases[len(cases) // 2])


def body(ck):
    irsload.load()
    import optuna
    optuna.logging.set_verbosity(optuna.logging.ERROR)
    pr = ck.tlc("RangesMC").prints
    by = lambda f: [p for p in pr if p["fam"] == f]
    ck.log("model enumerated", len(pr))
    thread_checks(ck, by("thread"))
    range_checks(ck, by("range"))
    name_checks(ck, by("name"))
    suggest_checks(ck)
    ck.sample(by("range")[0])
    ck.assumptions = ["optuna's samplers draw from the distribution they are given", "ASCII digits in names; environment settings are positive"]


def main():
    run("C24", body)
