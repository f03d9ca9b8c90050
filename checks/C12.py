"""C12: early stopping ends at the best validated epoch."""
import pickle

import numpy as np
import scipy.sparse as sps

import irsload
from vlib import call, run

NI = 8
# scores realised by the real evaluator on one relevant item: level -> its rank (beyond the cutoff: score 0)
RANKSETS = [[None, 6, 3, 1], [None, 3, 2, 1], [None, 8, 8, 8]]


def kit():
    from irspack.evaluation import Evaluator
    from irspack.recommenders.base_earlystop import BaseRecommenderWithEarlyStopping, TrainerBase

    class Trainer(TrainerBase):
        def __init__(self, owner):
            owner.n += 1
            self.state = [owner.n, 0]
            self.log = owner.log

        def run_epoch(self):
            self.state[1] += 1
            self.log.append(tuple(self.state))

        def save_state(self, ofs):
            pickle.dump(self.state, ofs)

        def load_state(self, ifs):
            self.state = list(pickle.load(ifs))

    class Rec(BaseRecommenderWithEarlyStopping, register_class=False):
        n = 0

        def _create_trainer(self):
            return Trainer(self)

        def rank(self):
            t, e = self.trainer.state
            self.seen.append((t, e))
            return self.ranks[self.levels(t, e)]

        def get_score(self, users):
            s = -np.arange(NI, dtype=float)
            r = self.rank()
            s[0] = -(r - 1) + .5 if r > 1 else 9.0
            if r > 1:
                s[1:] = -np.arange(NI - 1, dtype=float)
            return np.tile(s, (len(users), 1))

        def get_score_block(self, b, e):
            return self.get_score(np.arange(e - b))
    X = np.zeros((1, NI))
    gt = np.zeros((1, NI))
    gt[0, 0] = 1
    return Rec, sps.csr_matrix(X), Evaluator, sps.csr_matrix(gt)


class Trial:
    def __init__(self, prune_at):
        self.prune_at, self.reports, self.asked = prune_at, [], 0
        self.number, self.params, self.user_attrs = 0, {}, {}

    def report(self, value, step):
        self.reports.append((value, step))

    def should_prune(self):
        return self.prune_at is not None and len(self.reports) >= self.prune_at

    def set_user_attr(self, k, v):
        self.user_attrs[k] = v


def replay(ck, K, runs, ranks, metric, how):
    from optuna import TrialPruned
    Rec, X, Evaluator, gt = K
    ev = Evaluator(gt, cutoff=7, target_metric=metric, n_threads=1, mb_size=4)
    rec = Rec(X, train_epochs=1)
    rec.ranks, rec.log, rec.seen = ranks, [], []
    for t, d in enumerate(runs, 1):
        c, hist = d["cfg"], d["hist"]
        rec.levels = lambda tt, e, c=c, hist=hist: hist[min(e // c["V"], len(hist)) - 1] if hist and e >= c["V"] else 1
        base = rec.n
        rec.log.clear()
        trial = None
        if d["kind"] == "pruned" or (c["val"] and how != "defaults" and how & 1):
            trial = Trial(len(hist) if d["kind"] == "pruned" else None)
        seen0 = len(rec.seen)
        try:
            if not c["val"] and how != "defaults" and how & 2:
                rec.train_epochs = c["E"]
                rec.learn()
            elif how == "defaults":
                rec.learn_with_optimizer(ev if c["val"] else None, trial)
            else:
                rec.learn_with_optimizer(ev if c["val"] else None, trial, max_epoch=c["E"], validate_epoch=c["V"], score_degradation_max=c["D"])
            out = "ok"
        except TrialPruned:
            out = "pruned"
        except RuntimeError as e:
            out = f"error {e}"
        ck.traces += 1
        epochs = len(rec.log)
        state = tuple(rec.trainer.state) if rec.trainer is not None else None
        where = f"training {t} of {[x['cfg'] for x in runs]} with scores {hist}"
        if d["kind"] == "unvalidated":
            if out != "ok":
                continue          # refused: no validation took place
            if state != (base + 1, c["E"]) or rec.learnt_config.get("train_epochs", c["E"]) != c["E"]:
                return f"{where}: no validation took place, yet the model is in state {state} and learnt {rec.learnt_config}"
            continue
        if out != d["kind"]:
            return f"{where}: ended {out!r}, should end {d['kind']!r}"
        if epochs != d["epochs"] or any(x[0] != base + 1 for x in rec.log):
            return f"{where}: ran {epochs} epochs, should run {d['epochs']}"
        val_at = []
        for x in rec.seen[seen0:]:
            if x not in val_at:
                val_at.append(x)
        want = [(base + 1, k * c["V"]) for k in range(1, len(hist) + 1)] if c["val"] else []
        if val_at != want:
            return f"{where}: validated at {val_at}, should be {want}"
        if trial is not None:
            # what the pruner saw: the negated scores of the validations, in order
            sc = sorted(set(hist))
            vals = [v for v, _ in trial.reports]
            lv = hist[:len(vals)]
            good = len(vals) in (len(hist), len(hist) - 1) if out == "ok" else len(vals) == len(hist)
            for a, x in zip(vals, lv):
                for b, y in zip(vals, lv):
                    good = good and ((a < b) == (x > y) or ranks[x] == ranks[y]) and a <= 0
            if not good:
                return f"{where}: reported {trial.reports} to the pruner"
        if out == "ok":
            if state != (base + d["state"][0] - t + 1, d["state"][1]):
                return f"{where}: the model ends in the state of training {state[0] - base + t - 1} epoch {state[1]}, should be {d['state']}"
            if rec.learnt_config.get("train_epochs", 0) != d["learnt"]:
                return f"{where}: learnt setting {rec.learnt_config}, should be {d['learnt']}"
    return None


def ials(ck, runs):
    """real model: the result is the model trained for exactly the reported number of epochs"""
    from irspack.evaluation import Evaluator
    from irspack.recommenders import IALSRecommender
    rng = ck.rng
    r = np.random.RandomState(rng.randrange(10**6))
    X = sps.csr_matrix((r.rand(12, 9) < .4).astype(float))

    class Scripted(Evaluator):
        def _next(self):
            self.k += 1
            return self.hist[self.k - 1]

        def get_target_score(self, model):
            return self._next()

        def get_score(self, model):
            return {self.target_metric.name: self._next()}

        def get_scores(self, model, cutoffs):
            return {f"{self.target_metric.name}@{cutoffs[0]}": self._next()}
    for solver, feats in [("CHOLESKY", False), ("CG", False), ("IALSPP", False), ("CHOLESKY", True), ("CG", True)]:
        kw = dict(n_components=3, alpha0=.1, reg=.01, solver_type=solver, n_threads=1, random_seed=rng.randrange(100))
        if solver == "IALSPP":
            kw["ialspp_subspace_dimension"] = rng.choice([1, 2, 3])
        if feats:
            kw.update(user_features=sps.csr_matrix(r.rand(12, 2)), item_features=r.rand(9, 2), lambda_user_feature=.5, lambda_item_feature=.5,
                      feature_warmup_epochs=rng.choice([0, 2]))
        for run_ in rng.sample(runs, ck.pick(6, 40)):
            rec = IALSRecommender(X, **kw)
            ev = Scripted(X, cutoff=3, target_metric="ndcg", n_threads=1)
            hist = run_["hist"]
            unit, zero = rng.choice([(1 / 8, 0), (1 / 8, 0), (2.0 ** -45, .5), (1e-13, 0), (1, -9)])     # however close the scores
            ev.k, ev.hist = 0, [zero + x * unit for x in hist]
            c = run_["cfg"]
            rec.learn_with_optimizer(ev, None, max_epoch=c["E"], validate_epoch=c["V"], score_degradation_max=c["D"])
            ck.traces += 1
            ref = IALSRecommender(X, train_epochs=run_["learnt"], **kw).learn()
            u = np.arange(12)
            parts = dict(scores=(rec.get_score(u), ref.get_score(u)), block=(rec.get_score_block(2, 9), ref.get_score_block(2, 9)),
                         cold=(rec.get_score_cold_user(X), ref.get_score_cold_user(X)),
                         item=(rec.get_item_embedding(), ref.get_item_embedding()))
            if feats:
                parts["features"] = (rec.get_score_cold_user_from_features(kw["user_features"]), ref.get_score_cold_user_from_features(kw["user_features"]))
                parts["item features"] = (rec.get_score_from_item_features(u, kw["item_features"]), ref.get_score_from_item_features(u, kw["item_features"]))
            wrong = [k for k, (a, b) in parts.items() if not np.allclose(a, b, rtol=1e-6, atol=1e-7)]
            if wrong or rec.learnt_config.get("train_epochs") != run_["learnt"]:
                ck.violation(f"ials/{solver}", f"{solver} features={feats} scores {hist} limits {c}: learnt {rec.learnt_config} (should be {run_['learnt']}), "
                             f"{wrong} differ from a model trained for that many epochs", dict(run=run_, kw=str(kw)))


def body(ck):
    irsload.load()
    K = kit()
    one = [p["runs"] for p in ck.tlc("EarlyStop", ck.pick("EarlyStop1", "EarlyStopDeep")).prints]
    two = [p["runs"] for p in ck.tlc("EarlyStop", "EarlyStop2").prints] + [p["runs"] for p in ck.tlc("EarlyStop", "EarlyStop3").prints]
    ck.log("behaviours", len(one), len(two))
    rng = ck.rng
    dflt = [p["runs"] for p in ck.tlc("EarlyStop", "EarlyStopDefault").prints]
    for runs in dflt if ck.thorough else [r for r in dflt if not r[0]["cfg"]["val"]] + rng.sample(dflt, min(40, len(dflt))):
        w = replay(ck, K, runs, RANKSETS[0], "ndcg", "defaults")
        if w:
            ck.violation("earlystop/defaults", "without explicit limits: " + w, dict(runs=runs))
    ck.count("default_limits", len(dflt))
    long = [p["runs"] for p in ck.tlc("EarlyStop", "EarlyStopLong").prints]
    for runs in long if ck.thorough else rng.sample(long, min(60, len(long))):
        w = replay(ck, K, runs, RANKSETS[0], "ndcg", rng.randrange(4))
        if w:
            ck.violation("earlystop/long", w, dict(runs=runs))
    ck.count("long_patience", len(long))
    if len(two) > ck.pick(4000, 10**6):
        two = rng.sample(two, 4000)
    for q, runs in enumerate(one + two):
        ranks = RANKSETS[q % 2] if rng.random() < .5 else RANKSETS[0]
        if max([x for d in runs for x in d["hist"]] + [0]) >= 2 and rng.random() < .4:
            ranks = [None, 8, 4, 2]      # the lowest level is a score of zero
        w = replay(ck, K, runs, ranks, rng.choice(["ndcg", "map"]), rng.randrange(4))
        if w:
            ck.violation("earlystop/" + w.split(":")[-1].strip()[:14], w, dict(runs=runs))
    ck.count("single_trainings", len(one))
    ck.count("repeated_trainings", len(two))
    ok = [r[0] for r in one if r[0]["kind"] == "ok" and r[0]["cfg"]["val"]]
    ials(ck, ok)
    ck.sample(one[len(one) // 2])
    ck.sample(two[len(two) // 2])
    ck.assumptions = ["validation scores are numbers", "a training with an evaluator but no validated epoch may be refused"]


def main():
    run("C12", body)
