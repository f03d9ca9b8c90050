"""C13: tuning returns the parameters and scores of the truly best trial."""
import itertools
import logging
import threading
import time

import numpy as np
import scipy.sparse as sps

import irsload
from vlib import MachineryError, call, run

NI = 6
RANKS = list(itertools.combinations(range(NI), 2))      # where the two relevant items end up
QUIET = logging.getLogger("verif-quiet")
QUIET.addHandler(logging.NullHandler())
QUIET.propagate = False
NAN = -1


def canon(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return float(v)
    return v


class Pool:
    def __init__(self):
        self.ids = {}

    def put(self, x):
        x = canon(x)
        return self.ids.setdefault((type(x).__name__, x), len(self.ids) + 1)

    def pairs(self, d):
        return [[k, self.put(v)] for k, v in d.items()]


def ranking(q):
    """item scores in which the two relevant items (0 and 1) have ranks RANKS[q]"""
    order = [None] * NI
    order[RANKS[q][0]], order[RANKS[q][1]] = 0, 1
    rest = iter(range(2, NI))
    order = [next(rest) if x is None else x for x in order]
    s = np.zeros(NI)
    for pos, i in enumerate(order):
        s[i] = NI - pos
    return s


class World:
    """one scenario: recorded behaviour of scripted models under the real tuner"""

    def __init__(self):
        self.log = {}            # trial number -> record
        self.lock = threading.Lock()
        self.script = None       # trial number -> (quality, pruned, learnt)


def make_classes():
    from optuna import TrialPruned
    from irspack.optimization import CategoricalRange, LogUniformFloatRange, UniformFloatRange, UniformIntegerRange
    from irspack.recommenders.base import BaseRecommender
    from irspack.recommenders.ials import IALSRecommender

    def body(base):
        class Scripted(base, register_class=False):
            default_tune_range = [UniformIntegerRange("alpha", 1, 9), UniformFloatRange("beta", 0.0, 1.0),
                                  CategoricalRange("gamma", ["x", "y"]), LogUniformFloatRange("delta", 1e-3, 1.0)]
            world = None

            def __init__(self, X, **params):
                BaseRecommender.__init__(self, X)
                self.given, self.X = dict(params), X
                self.quality = 0

            def _learn(self):
                raise AssertionError("trained without the validation limits")

            def learn_with_optimizer(self, evaluator, trial, max_epoch=-1, validate_epoch=-1, score_degradation_max=-1):
                w = self.world
                q, pruned, learnt = w.script(trial.number, self.given)
                with w.lock:
                    w.log.setdefault(trial.number, []).append(dict(
                        built=self.given, X=self.X, limits=[max_epoch, validate_epoch, score_degradation_max], ev=evaluator))
                if pruned:
                    if pruned > 1:
                        trial.report(-1e6, 0)      # looks splendid, but never completes
                    raise TrialPruned()
                self.quality = q
                self.learnt_config.update(learnt)

            def get_score(self, user_indices):
                return np.tile(ranking(self.quality), (len(user_indices), 1))

            def get_score_block(self, begin, end):
                return np.tile(ranking(self.quality), (end - begin, 1))
        return Scripted
    return [body(BaseRecommender), body(IALSRecommender)]


def metrics_table(ck):
    """metric values of every quality, from the evaluator itself (its exactness is C01's business)"""
    from irspack.evaluation import Evaluator
    from irspack.recommenders.base import BaseRecommender
    gt = sps.csr_matrix(np.array([[1, 1] + [0] * (NI - 2)] * 3, dtype=float))

    class One(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, u):
            return np.tile(ranking(self.q), (len(u), 1))

        def get_score_block(self, b, e):
            return np.tile(ranking(self.q), (e - b, 1))
    out = {}
    for metric, cutoff in itertools.product(["ndcg", "map", "recall", "hit", "precision"], [1, 2, 4]):
        ev = Evaluator(gt, cutoff=cutoff, target_metric=metric, n_threads=1)
        m = One(sps.csr_matrix((3, NI)))
        rows = []
        for q in range(len(RANKS)):
            m.q = q
            rows.append(ev.get_score(m))
        out[metric, cutoff] = (ev, rows)
    return out


def scenario(ck, q, classes, tables):
    import optuna
    rng = ck.rng
    which = rng.randrange(2) if rng.random() < .4 else 0
    cls, w = classes[which], World()
    cls.world = w
    metric, cutoff = rng.choice(list(tables))
    ev, rows = tables[metric, cutoff]
    vals = sorted({r[metric] for r in rows})
    level = [vals.index(r[metric]) + 1 for r in rows]
    P = Pool()
    mode = rng.choice(["default", "default", "custom", "overlap"])
    # fixed parameters
    fixed = {}
    pool = dict(alpha=rng.choice([4, None]), beta=rng.choice([0.25, 0.0]), gamma="y", delta=0.125, n_threads=2, extra=rng.choice(["e", None, False]))
    for k in rng.sample(list(pool), rng.choice([0, 1, 2, 3])):
        fixed[k] = pool[k]
    learnt_kind = rng.choice(["none", "epochs", "two", "clash"])
    prune = rng.choice([0, 0, .2, .5])
    quals = [rng.randrange(len(RANKS)) for _ in range(40)]
    if rng.random() < .3:
        quals = [rng.choice(quals[:2]) for _ in quals]

    def script(number, given):
        r = __import__("random").Random(f"{q}-{number}")
        learnt = {}
        if learnt_kind != "none":
            learnt["train_epochs"] = r.randrange(1, 9)
        if learnt_kind == "two":
            learnt["other_learnt"] = r.choice([0.5, 1.5, 0, -1])
        if learnt_kind == "clash" and mode == "custom":
            learnt["zeta"] = 77
        return quals[number], (r.choice([1, 2]) if r.random() < prune else 0), learnt
    w.script = script
    given = {}       # trial number -> what the suggestion function returned
    kw = dict(fixed)
    odd = rng.sample(["params_theta", "my_params_x", "user_attrs_y", "value2", "state_z"], rng.choice([0, 1, 2]))
    if mode != "default":
        def suggest(trial):
            out = dict(zeta=trial.suggest_int("zeta", 0, 5), eta=trial.suggest_float("eta", 0.1, 2.0))
            for k in odd:
                out[k] = trial.suggest_int(k, 0, 3)
            if mode == "overlap":
                out["alpha"] = trial.suggest_int("alpha", 1, 9)
                out["constant"] = 3
            given[trial.number] = dict(out)
            return out
        kw["parameter_suggest_function"] = suggest
    X = sps.csr_matrix((3, NI))
    X2 = sps.csr_matrix((3, NI))
    usedata = rng.random() < .25
    wantdata = {}
    if usedata:
        def data_fn(trial):
            d = trial.suggest_categorical("which_data", ["one", "two"])
            wantdata[trial.number] = X if d == "one" else X2
            return wantdata[trial.number]
        kw["data_suggest_function"] = data_fn
    limits = [rng.randint(1, 60), rng.randint(1, 7), rng.randint(1, 7)]
    if rng.random() < .2:
        limits = [[128, 5, 5], [16, 1, 3]][which]
    else:
        kw.update(max_epoch=limits[0], validate_epoch=limits[1], score_degradation_max=limits[2])
    runs = rng.choice([[1], [4], [2, 3], [3, 1, 2], [5, 0]])
    study = None
    own = len(runs) == 1 and rng.random() < .5
    if not own:
        st = None
        if rng.random() < .08:
            st = f"sqlite:///{ck.tmp}/s{q}.db"
        study = optuna.create_study(storage=st, sampler=optuna.samplers.RandomSampler(seed=q) if rng.random() < .5 else optuna.samplers.TPESampler(seed=q))
        kw["study"] = study
    else:
        kw["tuning_random_seed"] = q
    cases, before = [], 0
    for n in runs:
        fixed_before = dict(fixed)
        r = call(cls.tune, None if usedata else X, ev, n_trials=n, logger=QUIET, **kw)
        ok = r[0] == "ok"
        df = r[1][1] if ok else None
        if study is not None:
            tr = study.get_trials(deepcopy=False)
        else:
            tr = None
        total = len(tr) if tr is not None else max([*w.log, -1]) + 1
        trials = []
        for k in range(total):
            lg = w.log.get(k, [])
            if len(lg) != 1:
                ck.violation("tune/models", f"trial {k} built and trained {len(lg)} models", dict(scenario=q))
                return []
            lg = lg[0]
            qual, pruned, learnt = script(k, None)
            if tr is not None:
                sugg = dict(tr[k].params)
            else:      # the study is internal: what was suggested is what the model got, besides the fixed ones
                sugg = dict(given[k]) if k in given else {a: b for a, b in lg["built"].items() if a not in fixed}
                sugg.pop("constant", None)
                if usedata:
                    sugg["which_data"] = "one" if wantdata[k] is X else "two"
            gv = given.get(k, {a: b for a, b in sugg.items() if a != "which_data"})
            trials.append(dict(sugg=P.pairs(sugg), given=P.pairs(gv), built=P.pairs(lg["built"]),
                               data=1 if lg["X"] is X else (2 if lg["X"] is X2 else 0), wantdata=2 if wantdata.get(k, X) is X2 else 1,
                               limits=lg["limits"], ev=lg["ev"] is ev, pruned=bool(pruned), level=level[qual], metrics=qual + 1,
                               learnt=P.pairs(learnt)))
        rr = []
        best = {}
        if ok:
            best = r[1][0]
            names = ({a for t in trials for a, _ in t["sugg"]} | {a for t in trials for a, _ in t["learnt"]})
            cc = list(df.columns)
            for num, vv in zip(df.index.tolist(), df.itertuples(index=False, name=None)):
                row = dict(zip(cc, vv))
                cells = [[a, P.put(v)] for a, v in zip(cc, vv) if a in names and not (isinstance(v, float) and np.isnan(v))]
                got = {m: row.get(f"{m}@{cutoff}", float("nan")) for m in rows[0]}
                present = [m for m in got if not np.isnan(got[m])]
                mid = 0
                if present:
                    mid = -1
                    k = int(num)
                    if 0 <= k < total and all(abs(got[m] - rows[trials[k]["metrics"] - 1][m]) < 1e-12 for m in got):
                        mid = trials[k]["metrics"]
                v = row.get("value", float("nan"))
                near = [i + 1 for i, x in enumerate(vals) if abs(-v - x) < 1e-12] if v == v else []
                rr.append(dict(number=int(num), cells=cells, state=str(row.get("state")), value=near[0] if near else 0, metrics=mid))
        cases.append(dict(id=f"s{q}.{len(cases)}", fixed=P.pairs(fixed), before=before, n=n, trials=trials, limits=limits, ok=ok,
                          err="" if ok else f"{r[1]}: {r[2]}"[:200], best=P.pairs(best), rows=rr, kept=fixed == fixed_before, mode=mode))
        before = total
    return cases


def seeds(ck, classes, tables):
    """the same tuning seed suggests the same sequence"""
    X = sps.csr_matrix((3, NI))
    ev, _ = tables["ndcg", 4]
    for cls in classes:
        for s in (0, 7):
            got = []
            for _ in range(2):
                w = World()
                w.script = lambda n, g: (n % len(RANKS), 0, {})
                cls.world = w
                cls.tune(X, ev, n_trials=14, tuning_random_seed=s, logger=QUIET)
                got.append([w.log[k][0]["built"] for k in sorted(w.log)])
            ck.traces += 1
            if got[0] != got[1]:
                ck.violation("tune/seed", f"{cls.__mro__[1].__name__}: tuning_random_seed={s} gave different suggestions", dict(a=got[0], b=got[1]))


def concurrent(ck, q, cls, tables):
    """several workers extend one study at the same time"""
    import optuna
    rng = ck.rng
    metric, cutoff = rng.choice(list(tables))
    ev, rows = tables[metric, cutoff]
    delays = __import__("random").Random(q)

    class Slow(optuna.storages.InMemoryStorage):
        def set_study_user_attr(self, *a, **k):
            time.sleep(delays.random() * .004)
            return super().set_study_user_attr(*a, **k)

        def get_study_user_attrs(self, *a, **k):
            v = super().get_study_user_attrs(*a, **k)
            time.sleep(delays.random() * .004)
            return v

        def set_trial_user_attr(self, *a, **k):
            time.sleep(delays.random() * .002)
            return super().set_trial_user_attr(*a, **k)
    study = optuna.create_study(storage=Slow(), sampler=optuna.samplers.RandomSampler(seed=q))
    w = World()
    quals = [rng.randrange(len(RANKS)) for _ in range(64)]
    w.script = lambda n, g: (quals[n], 0, {"train_epochs": n + 1})
    cls.world = w
    X = sps.csr_matrix((3, NI))
    errs = []

    def work():
        r = call(cls.tune, X, ev, study=study, n_trials=5, logger=QUIET)
        if r[0] != "ok":
            errs.append(f"{r[1]}: {r[2]}")
    th = [threading.Thread(target=work) for _ in range(3)]
    [t.start() for t in th]
    [t.join() for t in th]
    r = call(cls.tune, X, ev, study=study, n_trials=0, logger=QUIET)
    ck.traces += 1
    if errs or r[0] != "ok":
        ck.violation("tune/concurrent", f"workers sharing a study failed: {errs} {r[1:] if r[0] != 'ok' else ''}", dict(q=q))
        return
    best, df = r[1]
    vals = [rows[quals[k]][metric] for k in range(15)]
    lost = [k for k in range(15) if k not in df.index or any(not abs(df.loc[k].get(f"{m}@{cutoff}", np.nan) - rows[quals[k]][m]) < 1e-12 for m in rows[0])]
    if len(df) != 15 or lost:
        ck.violation("tune/concurrent", f"with three workers on one study the table misses the metrics of trials {lost} ({len(df)} rows)", dict(q=q))
    if vals[best.get("train_epochs", 1) - 1] != max(vals):
        ck.violation("tune/concurrent", f"best parameters {best} are not those of a best trial", dict(q=q))


def real_models(ck, q):
    """real models: the trial's row holds the metrics of the model its parameters describe (rebuilt and evaluated here)"""
    import optuna
    from irspack import recommenders as R
    from irspack.evaluation import Evaluator
    from irspack.optimization import UniformFloatRange
    from irspack.recommenders.base import BaseRecommender
    rng = ck.rng
    g = np.random.RandomState(rng.randrange(10**6))

    class Plain(BaseRecommender, register_class=False):
        default_tune_range = [UniformFloatRange("tilt", -1.0, 1.0)]

        def __init__(self, X, tilt=0.0, extra=0):
            super().__init__(X)
            self.tilt = tilt

        def _learn(self):
            self.w = self.tilt * np.arange(self.n_items) + np.asarray(self.X_train_all.sum(axis=0)).ravel()

        def get_score(self, users):
            return np.tile(self.w, (len(users), 1))
    kinds = [(Plain, {}), (Plain, dict(extra=1)), (R.TopPopRecommender, {}), (R.CosineKNNRecommender, dict(n_threads=1)), (R.P3alphaRecommender, dict(n_threads=1)),
             (R.DenseSLIMRecommender, {}), (R.TruncatedSVDRecommender, dict(n_components=3)), (R.CosineUserKNNRecommender, dict(n_threads=1, top_k=3)),
             (R.IALSRecommender, dict(n_threads=1, n_components=3, solver_type="CHOLESKY")), (R.IALSRecommender, dict(n_threads=1, n_components=2, train_epochs=3))]
    cls, fixed = kinds[q % len(kinds)]
    X = sps.csr_matrix((g.rand(12, 10) < .4).astype(float))
    gt = sps.csr_matrix(np.where(X.toarray() > 0, 0, g.rand(12, 10) < .4).astype(float))
    metric, cutoff = rng.choice(["ndcg", "map", "recall", "hit"]), rng.choice([1, 3, 5])
    ev = Evaluator(gt, cutoff=cutoff, target_metric=metric, n_threads=1)
    study = optuna.create_study(sampler=optuna.samplers.RandomSampler(seed=q), pruner=optuna.pruners.NopPruner())
    n = rng.choice([1, 3, 5])
    kw = dict(fixed)
    lim = [rng.randint(2, 9), rng.randint(1, 2), rng.randint(1, 3)] if cls is R.IALSRecommender else [6, 1, 2]
    before = dict(fixed)
    r = call(cls.tune, X, ev, study=study, n_trials=n, max_epoch=lim[0], validate_epoch=lim[1], score_degradation_max=lim[2], logger=QUIET, **kw)
    ok, P, trials, rr, seen = r[0] == "ok", Pool(), [], [], []
    df = r[1][1] if ok else None
    cols = set()
    for k, t in enumerate(study.get_trials(deepcopy=False)):
        learnt = {a: b for a, b in t.user_attrs.items() if a == "train_epochs"}
        if cls is R.IALSRecommender and t.state.name == "COMPLETE" and not (1 <= learnt.get("train_epochs", 0) <= lim[0]):
            ck.violation("tune/real", f"{cls.__name__}: trial {k} reports no learnt number of epochs ({t.user_attrs})")
        m = cls(X, **{**t.params, **fixed, **learnt}).learn()
        seen.append({a: round(b, 9) for a, b in ev.get_score(m).items()})
        cols |= {*t.params, *learnt}
        trials.append(dict(sugg=P.pairs(t.params), given=P.pairs(t.params), built=P.pairs({**t.params, **fixed}), data=1, wantdata=1, limits=lim, ev=True,
                           pruned=t.state.name == "PRUNED", level=0, metrics=0, learnt=P.pairs(learnt)))
    vals = sorted({s[metric] for s in seen})
    for t, s in zip(trials, seen):
        t.update(level=vals.index(s[metric]) + 1, metrics=P.put(str(sorted(s.items()))))
    if ok:
        for num, row in zip(df.index.tolist(), df.to_dict("records")):
            got = {m: round(row.get(f"{m}@{cutoff}", float("nan")), 9) for m in seen[0]}
            v = row.get("value", float("nan"))
            near = [i + 1 for i, x in enumerate(vals) if abs(-v - x) < 1e-8] if v == v else []
            rr.append(dict(number=int(num), cells=[[a, P.put(b)] for a, b in row.items() if a in cols and b == b], state=str(row.get("state")),
                           value=near[0] if near else 0, metrics=P.put(str(sorted(got.items())))))
    ck.count("real_model_trials", len(trials))
    return dict(id=f"real{q}", fixed=P.pairs(fixed), before=0, n=n, trials=trials, limits=lim, ok=ok, err="" if ok else f"{r[1]}: {r[2]}"[:200],
                best=P.pairs(r[1][0]) if ok else [], rows=rr, kept=fixed == before, mode="real " + cls.__name__)


def startup(ck, classes, tables):
    """the pruner the tuner creates leaves the requested number of first trials alone"""
    from optuna import TrialPruned
    ev, _ = tables["ndcg", 4]
    X = sps.csr_matrix((3, NI))
    for base in classes:
        class Worse(base, register_class=False):
            ends = {}

            def learn_with_optimizer(self, evaluator, trial, max_epoch=-1, validate_epoch=-1, score_degradation_max=-1):
                trial.report(float(trial.number), 0)
                if trial.should_prune():
                    self.ends[trial.number] = "pruned"
                    raise TrialPruned()
                self.ends[trial.number] = "complete"
        for s in (1, 3, 7, None):
            Worse.ends = {}
            r = call(Worse.tune, X, ev, n_trials=14, logger=QUIET, **({} if s is None else dict(prunning_n_startup_trials=s)))
            ck.traces += 1
            full = sum(v == "complete" for v in Worse.ends.values())
            if r[0] != "ok" or full != (10 if s is None else s) or len(Worse.ends) != 14:
                ck.violation("tune/startup", f"{base.__mro__[1].__name__}: with {s} start-up trials {full} of {len(Worse.ends)} ever worse trials were completed: {str(r)[:100] if r[0] != 'ok' else ''}")


def timeouts(ck, classes, tables):
    """no trial begins after the time limit (given in seconds), and none is cut short by it"""
    import time
    ev, _ = tables["ndcg", 4]
    X = sps.csr_matrix((3, NI))
    for base in classes:
        class Slowly(base, register_class=False):
            began, ended = [], []

            def learn_with_optimizer(self, evaluator, trial, max_epoch=-1, validate_epoch=-1, score_degradation_max=-1):
                self.began.append(time.time())
                time.sleep(.4)
                self.ended.append(time.time())
        for limit in (1, None):
            del Slowly.began[:], Slowly.ended[:]
            n = 40 if limit else 3
            t0 = time.time()
            r = call(Slowly.tune, X, ev, n_trials=n, logger=QUIET, timeout=limit)
            ck.traces += 1
            # generous: a loaded machine delays trials, it never starts forty of them
            good = r[0] == "ok" and len(Slowly.began) == len(Slowly.ended) >= 1
            good = good and (max(Slowly.began) - t0 < limit + 3 and len(Slowly.began) < n if limit else len(Slowly.began) == n)
            if not good:
                ck.violation("tune/timeout", f"{base.__mro__[1].__name__}: timeout={limit}: {len(Slowly.began)} of {n} trials of 0.4 s were started"
                             f"{' ' + str(r[1:3])[:100] if r[0] != 'ok' else ''}")


def no_data(ck, classes, tables):
    """without data there is nothing to tune on"""
    ev, _ = tables["ndcg", 2]
    for cls in classes:
        cls.world = World()
        cls.world.script = lambda k, g: (0, 0, {})
        r = call(cls.tune, None, ev, n_trials=1, logger=QUIET)
        ck.traces += 1
        if r[0] == "ok" or cls.world.log:
            ck.violation("tune/no-data", f"tuning without data: {str(r)[:120]}")


def body(ck):
    irsload.load()
    import optuna
    optuna.logging.set_verbosity(optuna.logging.ERROR)
    ck.tlc("TuningMC")
    if ck.thorough:
        r = ck.tlc("TuningMC", "TuningShared", must_pass=False)
        if "MetricsKept is violated" not in r.out:
            raise MachineryError("the model does not notice lost updates")
    ck.log("model checked")
    classes, tables = make_classes(), metrics_table(ck)
    cases = []
    for q in range(ck.pick(250, 3000)):
        cases += scenario(ck, q, classes, tables)
    cases += [real_models(ck, q) for q in range(ck.pick(30, 300))]
    ck.log("tuned", len(cases))
    bad = ck.judge("TuningTrace", cases)
    for c in cases:
        if c["id"] in bad:
            ck.violation(f"tune/{c['mode']}", "; ".join(bad[c["id"]])[:500], c)
    no_data(ck, classes, tables)
    seeds(ck, classes, tables)
    startup(ck, classes, tables)
    timeouts(ck, classes, tables)
    for q in range(ck.pick(4, 40)):
        concurrent(ck, q, classes[0], tables)
    ck.count("tuning_runs", len(cases))
    ck.sample(cases[0])
    ck.assumptions = ["optuna runs objectives and selects its best completed trial as documented", "studies minimise, as those the library creates"]


def main():
    run("C13", body)
