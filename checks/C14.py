"""C14: the dimension-doubling search."""
import math
import threading

import numpy as np
import scipy.sparse as sps

import irsload
from checks.C13 import NI, Pool, QUIET, RANKS, metrics_table, ranking  # noqa: F401
from vlib import call, run

CONT = dict(alpha0=(3e-3, 1.0), reg=(1e-4, 1e-1))


def make():
    from optuna import TrialPruned
    from irspack.recommenders.base import BaseRecommender
    from irspack.recommenders.ials import IALSRecommender

    class Scripted(IALSRecommender, register_class=False):
        def __init__(self, X, **params):
            BaseRecommender.__init__(self, X)
            self.given = dict(params)
            self.quality = 0

        def learn_with_optimizer(self, evaluator, trial, max_epoch=-1, validate_epoch=-1, score_degradation_max=-1):
            w = Scripted.world
            d = self.given.get("n_components")
            qual, pruned, learnt = w["script"](d, trial.number)
            w["log"].setdefault(trial.study.study_name, {})[trial.number] = dict(
                built=self.given, limits=[max_epoch, validate_epoch, score_degradation_max], ev=evaluator, learnt=learnt, qual=qual)
            # every trial reports worse than all before it: the pruner's opinion
            # shows how many completed trials it waits for
            trial.report(float(trial.number), 0)
            w["log"][trial.study.study_name][trial.number]["prune"] = bool(trial.should_prune())
            if pruned:
                raise TrialPruned()
            self.quality = qual
            self.learnt_config.update(learnt)

        def get_score(self, users):
            return np.tile(ranking(self.quality), (len(users), 1))

        def get_score_block(self, b, e):
            return np.tile(ranking(self.quality), (e - b, 1))
    return Scripted


def close(a, b):
    return math.isclose(a, b, rel_tol=1e-9)


def one(ck, q, beh, cls, tables, defaults=False):
    import optuna
    rng = ck.rng
    metric = rng.choice(["ndcg", "map"])
    ev, rows = tables[metric, 4]
    vals = sorted({r[metric] for r in rows})
    lv = [vals.index(r[metric]) for r in rows]
    # model levels 1, 2, ... realised by qualities with increasing target metric
    picks = sorted(rng.sample(range(len(vals)), 3))
    qual = [rng.choice([i for i, x in enumerate(lv) if x == p]) for p in picks]
    c = beh["c"]
    plan = {s["dim"]: s["trials"] for s in beh["SS"]}
    learns = rng.random() < .6
    P = Pool()

    def script(d, number):
        t = plan.get(d, [])
        t = t[number] if number < len(t) else dict(level=1, pruned=False)
        return qual[t["level"] - 1], t["pruned"], ({"train_epochs": 1 + (d * 7 + number) % 16} if learns else {})
    cls.world = dict(script=script, log={})
    st = optuna.storages.InMemoryStorage()
    prefix = f"verif{q}"
    scale = rng.choice([3.0, 2.0, 1.5, 10.0])
    limits = [16, 1, 3] if rng.random() < .2 else [rng.randint(1, 40), rng.randint(1, 5), rng.randint(1, 5)]
    kw = {} if limits == [16, 1, 3] else dict(max_epoch=limits[0], validate_epoch=limits[1], score_degradation_max=limits[2])
    if scale != 3.0 or rng.random() < .5:
        kw["neighborhood_scale"] = scale
    custom = rng.random() < .35
    if custom:
        def sugg(trial):
            return dict(alpha0=trial.suggest_float("alpha0", .01, .5), nu=trial.suggest_float("nu", .3, 2.0, log=True),
                        max_cg_steps=trial.suggest_int("max_cg_steps", 1, 5), solver_type=trial.suggest_categorical("solver_type", ["CG", "CHOLESKY"]))
        kw["suggest_function_initial"] = sugg
    if rng.random() < .5:
        kw["random_seed"] = rng.randrange(100)
    s1, s2 = 10, 5
    if rng.random() < .7:
        kw["n_startup_trials_initial"] = s1 = rng.randint(0, 4)
    if rng.random() < .7:
        kw["n_startup_trials_following"] = s2 = rng.randint(0, 3)
    kw.update(n_trials_initial=c["n1"], n_trials_following=c["n2"])
    if defaults:
        kw, limits, scale, s1, s2, custom = {}, [16, 1, 3], 3.0, 10, 5, False
    X = sps.csr_matrix((3, NI))
    r = call(cls.tune_doubling_dimension, X, ev, c["init"], c["max"], storage=st, study_name_prefix=prefix, **kw)
    ok = r[0] == "ok"
    log = cls.world["log"]
    twin = True
    if ok and "random_seed" in kw and q % 3 == 0:      # the same seed searches the same way, without names and storage too
        cls.world = dict(script=script, log={})
        r2 = call(cls.tune_doubling_dimension, X, ev, c["init"], c["max"], **(kw if rng.random() < .5 else dict(kw, storage=st)))
        runs = [[L[n]["built"] for L in w.values() for n in sorted(L)] for w in (log, cls.world["log"])]
        twin = r2[0] == "ok" and runs[0] == runs[1] and r2[1][0] == r[1][0]
        ck.count("twins")
    names = [s for s in optuna.get_all_study_summaries(storage=st)]
    if ok and "random_seed" in kw and q % 3 == 0:
        names = [s for s in names if s.study_name in log]
    names = {s.study_name: s for s in names}
    SS, prev = [], None
    for name in sorted(names, key=lambda n: names[n]._study_id):
        try:
            d = int(name[len(prefix) + 1:])
        except ValueError:
            d = -1
        study = optuna.load_study(study_name=name, storage=st)
        lg = log.get(name, {})
        trials = []
        for t in study.get_trials(deepcopy=False):
            qn, pruned, learnt = script(d, t.number)
            near = []
            for b in (prev or []):
                flo = {k: v for k, v in b.params.items() if isinstance(v, float)}
                good = set(t.params) == set(flo) and all(
                    getattr(t.distributions[k], "log", False) and close(t.distributions[k].low, v / scale) and close(t.distributions[k].high, v * scale)
                    for k, v in flo.items())
                near.append(bool(good))
            g = lg.get(t.number, dict(built={}, limits=[], ev=None, prune=False))
            same = {k: v for k, v in g["built"].items() if k != "n_components"} == dict(t.params)
            trials.append(dict(level=picks.index(lv[qn]) + 1, pruned=bool(pruned), built=int(g["built"].get("n_components", -1)), near=near,
                               limits=g["limits"] == limits and g["ev"] is ev and same, prune=bool(g.get("prune")), result=P.pairs({**t.params, **learnt})))
        prev = study.get_trials(deepcopy=False)
        SS.append(dict(dim=d, dimid=P.put(d), trials=trials))
        SS[-1]["study"] = name
    rws, values = [], True
    if ok:
        df = r[1][1]
        dims = [int(x) for x in df["n_components"].tolist()]
        for d in dict.fromkeys(dims):
            sub = df[df["n_components"] == d]
            rws.append(dict(dim=d, n=len(sub)))
            name = f"{prefix}_{d}"
            if name in names:
                ts = optuna.load_study(study_name=name, storage=st).get_trials(deepcopy=False)
                for t, (num, row) in zip(ts, sub.iterrows()):
                    values = values and num == t.number and str(row["state"]) == t.state.name
                    values = values and all(row[k] == v or (isinstance(v, float) and close(row[k], v)) for k, v in t.params.items())
                    if t.state.name == "COMPLETE":
                        qn = script(d, t.number)[0]
                        values = values and abs(-row["value"] - rows[qn][metric]) < 1e-12 and abs(row[f"{metric}@4"] - rows[qn][metric]) < 1e-12
    return dict(id=f"d{q}", init=c["init"], max=c["max"], n1=c["n1"], n2=c["n2"], s1=s1, s2=s2, twin=bool(twin), ok=ok, err="" if ok else f"{r[1]}: {r[2]}"[:200],
                SS=SS, best=P.pairs(r[1][0]) if ok else [], rows=rws, values=bool(values))


def body(ck):
    irsload.load()
    import optuna
    optuna.logging.set_verbosity(optuna.logging.ERROR)
    import logging
    logging.disable(logging.CRITICAL)
    beh = ck.tlc("DoublingMC").prints
    ck.log("behaviours", len(beh))
    beh = ck.rng.sample(beh, min(len(beh), ck.pick(500, 6000)))
    cls, tables = make(), metrics_table(ck)
    cases = [one(ck, q, b, cls, tables) for q, b in enumerate(beh)]
    for q in range(ck.pick(2, 12)):        # no setting given: the documented numbers of trials
        d = ck.rng.randint(2, 9)
        tr = lambda n: [dict(level=ck.rng.randint(1, 3), pruned=ck.rng.random() < .2) for _ in range(n - 1)] + [dict(level=2, pruned=False)]
        cases.append(one(ck, len(cases), dict(c=dict(init=d, max=2 * d, n1=40, n2=20), SS=[dict(dim=d, trials=tr(40)), dict(dim=2 * d, trials=tr(20))]),
                         cls, tables, defaults=True))
    ck.log("replayed", len(cases))
    bad = ck.judge("DoublingTrace", cases)
    for c in cases:
        if c["id"] in bad:
            ck.violation("doubling/" + bad[c["id"]][0][:24], "; ".join(bad[c["id"]])[:500], c)
    ck.count("searches", len(cases))
    ck.sample(cases[0])
    ck.assumptions = ["every study has a completed trial; continuous parameters are positive"]


def main():
    run("C14", body)
