"""Generation of evaluation inputs, running them through the real evaluators and
comparing with the model's report (spec/Evaluator.tla)."""
import math
import pickle
import random

import numpy as np
import scipy.sparse as sps

from vlib import call, close

NINF = -1000000
VALS = [1.0, 2.0, 0.25, -1.5, 1e-60]    # what a stored (non-zero) entry may look like


def to_csr(rows, ni, val=1.0, fmt="csr", zeros=0.0, rng=None, loose=False):
    """val: the stored value, or a list the values are drawn from; zeros: how often an absent
    entry is stored as an explicit zero; loose: rows need not be stored in column order, and ones may be
    of any type"""
    r, c, d = [], [], []
    for u, items in enumerate(rows):
        for i in items:
            r.append(u)
            c.append(i)
            d.append(rng.choice(val) if isinstance(val, list) else val)
        if zeros:
            for i in range(ni):
                if i not in items and rng.random() < zeros:
                    r.append(u)
                    c.append(i)
                    d.append(0.0)
    m = sps.csr_matrix((d, (r, c)), shape=(len(rows), ni), dtype=np.float64)
    if loose and val == 1.0 and not zeros:
        m = m.astype(rng.choice([np.float64, np.float32, np.int32, np.int8, bool]))
    if fmt == "csc":
        return m.tocsc()
    if loose and rng.random() < .4:
        for u in range(len(rows)):
            a, b = m.indptr[u:u + 2]
            at = list(range(a, b))
            rng.shuffle(at)
            m.indices[a:b], m.data[a:b] = m.indices[at], m.data[at]
        m.has_sorted_indices = False
    return m


def score_array(rows, dtype, levels):
    out = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=dtype)
    for u, row in enumerate(rows):
        for i, v in enumerate(row):
            out[u, i] = -np.inf if v == NINF else levels[v]
    if out.size:        # both zeros are the same score
        z = out == 0
        z[:, ::2] = False
        out[z] = -0.0
    return out


def levels_for(rng, nlev, dtype):
    """strictly increasing, exactly representable values for score levels 0..nlev"""
    kind = rng.choice(["int", "neg", "tiny", "huge", "extreme"])
    if kind == "extreme":   # the largest, smallest and least separated scores there are
        f = np.finfo(dtype)
        lv = {v: float(f.smallest_subnormal) * (v - nlev // 2) for v in range(nlev + 1)}
        lv[nlev] = float("inf")
        if nlev >= 2:
            lv[0] = float(f.min)
        if nlev >= 3:
            lv[nlev - 1] = float(f.max)
        if nlev >= 4:
            lv[1] = float(np.nextafter(f.min, dtype(0)))
        return lv
    if dtype == np.float32:
        step = {"int": 1.0, "neg": 0.5, "tiny": 2.0 ** -10, "huge": 2.0 ** 20}[kind]
    else:
        step = {"int": 1.0, "neg": 0.5, "tiny": 2.0 ** -40, "huge": 2.0 ** 60}[kind]
    base = {"int": 0.0, "neg": -7.5, "tiny": 1.0, "huge": -(2.0 ** 21)}[kind]
    return {v: base + v * step for v in range(nlev + 1)}


def rand_items(rng, ni, p):
    return [i for i in range(ni) if rng.random() < p]


def gen_case(rng, cid, path=None, nu=None, ni=None, mask=None, reck=None, ncold=0, cold=None,
             nlev=None, bad_blocks=False):
    nu = nu or rng.choice([1, 2, 3, 5, 8])
    ni = ni or rng.choice([1, 2, 3, 5, 9, 14])
    path = path or rng.choice(["matrix", "model", "cold"])
    nlev = nlev or rng.choice([1, 2, 4, 30])
    off = rng.choice([0, 0, 1, 3]) if path == "model" else 0
    extra = rng.choice([0, 0, 2]) if path == "model" else 0
    nwarm = ni - ncold
    nrows = nu + off + extra
    width = ni if (cold == "yes" or not ncold) else nwarm
    p_inf = rng.choice([0.0, 0.1, 0.6])
    sc = [[NINF if rng.random() < p_inf else rng.randint(0, nlev) for _ in range(width)]
          for _ in range(nrows)]
    if path == "coldmat":
        width = ni
        sc = [[NINF if rng.random() < p_inf else rng.randint(0, nlev) for _ in range(ni)]
              for _ in range(nrows)]
    gt = [rand_items(rng, ni, rng.choice([0.0, 0.2, 0.5, 1.0])) for _ in range(nu)]
    train = [rand_items(rng, nwarm, rng.choice([0.0, 0.3, 0.7, 1.0])) for _ in range(nrows)] \
        if path != "matrix" else []
    hasmask = rng.random() < 0.5 if mask is None else mask
    maskrows = [rand_items(rng, ni, rng.choice([0.0, 0.3, 1.0])) for _ in range(nu)] if hasmask else []
    reck = reck or rng.choice(["all", "all", "global", "user"])
    if reck == "all":
        rec = []
    elif reck == "global":
        rec = [rand_items(rng, ni, rng.choice([0.3, 0.7, 1.0]))]
        rng.shuffle(rec[0])
    else:
        rec = [rand_items(rng, ni, rng.choice([0.0, 0.4, 0.8])) for _ in range(nu)]
        for r in rec:
            rng.shuffle(r)
    cuts = sorted({rng.randint(1, ni) for _ in range(3)}, key=lambda _: rng.random())
    if ni > 10 and rng.random() < .5:       # the default cutoff
        cuts = [10] + [c for c in cuts if c != 10]
    if rng.random() < .1:                   # a cutoff asked for twice
        cuts.insert(1, cuts[0])
    blocks = []
    left = nu
    while left:
        n = rng.randint(0 if path in ("matrix", "coldmat") else 1, left)
        blocks.append(dict(rows=n, cols=ni, kind="ok"))
        left -= n
    return dict(id=cid, nu=nu, ni=ni, gt=gt, sc=sc, path=path, off=off, train=train,
                hasmask=hasmask, mask=maskrows, reck=reck, rec=rec, ncold=ncold,
                cold=cold or "none", cuts=cuts, rwc=rng.random() < 0.5, blocks=blocks)


def disc(p):
    return 1.0 / math.log2(p + 1)


def evaluate_report(t):
    """symbolic terms -> the numbers the API must return"""
    v = t["valid"] if t["valid"] > 0 else 1
    ideal = lambda n: sum(disc(p) for p in range(1, n + 1))
    ent = 0.0
    for n in t["cnt"]:
        if n:
            p = n / t["shown"]
            ent -= p * math.log(p)
    return {
        "total_user": t["total"], "valid_user": t["valid"], "n_items": len(t["cnt"]),
        "hit": t["hit"] / v,
        "recall": sum(a / b for a, b in t["recall"]) / v,
        "precision": sum(a / b for a, b in t["precision"]) / v,
        "map": sum(a / b for a, b in t["ap"]) / v,
        "ndcg": sum(sum(disc(p) for p in x["pos"]) / ideal(x["ideal"]) for x in t["ndcg"]) / v,
        "appeared_item": t["appeared"], "entropy": ent,
        "gini_index": t["gini"][0] / t["gini"][1],
        "catalog_coverage": (t["coverage"][0] / t["coverage"][1]) if t["coverage"][1] else float("nan"),
    }


COUNTS = {"total_user", "valid_user", "n_items"}


def compare(got, terms, names=None):
    want = evaluate_report(terms)
    bad = []
    for k, w in want.items():
        if names is not None and k not in names:
            continue
        if k not in got:
            if k in COUNTS and "hit" in got:     # only single-cutoff reports carry the counts (their presence is C06's)
                continue
            bad.append(f"{k} missing")
        elif not close(float(got[k]), float(w), 1e-9):
            bad.append(f"{k}={got[k]!r} expected {w!r}")
    return bad


def make_model(case, dtype, levels, how, log=None, own=False, order="C"):
    """A recommender (subclass of the real base class) with the given score table.
    own: it hands out (views of) its own table, in the given memory order, instead of copies."""
    from irspack.recommenders.base import BaseRecommender

    table = np.array(score_array(case["sc"], dtype, levels), order=order)
    out = (lambda a: a) if own else (lambda a: a.copy())
    warm = case["ni"] - case["ncold"]
    sh = case.get("sh")

    class Tbl(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, user_indices):
            u = np.asarray(user_indices)
            if own and len(u) and np.array_equal(u, np.arange(u[0], u[0] + len(u))):
                return table[u[0]:u[0] + len(u)]
            return table[user_indices]

        def get_score_cold_user(self, X):
            return out(self._cold(X)[:, :warm])

        def _cold(self, X):
            X = sps.csr_matrix(X)
            n = X.shape[0]
            if log is not None:
                log.append(n)
            start = self.cursor
            self.cursor += n
            return out(table[start:start + n])

    if how == "block":
        Tbl.get_score_block = lambda self, b, e: out(table[b:e])
    if case["cold"] == "yes":
        Tbl.get_score_cold_user_with_item_features = lambda self, X, f: self._cold(X)
    if case["path"] == "model":
        X = to_csr(case["train"], sh["mi"] if sh else warm, VALS, rng=random.Random(len(case["id"]) * 7 + case["nu"]))
    else:
        X = sps.csr_matrix((2, sh["mi"] if sh else warm))
    m = Tbl(X)
    m.cursor = 0
    m._table = table
    return m


def run_real(case, rng, force=None):
    """Drive the real evaluator; returns (outcome, info). outcome is
    ("ok", [dict per cutoff]) or ("err", type, msg)."""
    from irspack.evaluation import Evaluator, EvaluatorWithColdUser

    opt = dict(
        dtype=rng.choice([np.float32, np.float64]), threads=rng.choice([1, 2, 3, 7]),
        gtfmt=rng.choice(["csr", "csc"]), maskfmt=rng.choice(["csr", "csc"]),
        recfmt=rng.choice(["list", "sparse"]), how=rng.choice(["block", "get_score"]),
        entry=rng.choice(["get_scores", "get_score"]), mb=rng.choice([1, 2, 3, 128]),
        pick=rng.random() < 0.2, feat=rng.choice(["sparse", "dense"]), order=rng.choice(["C", "F"]),
        stream=rng.choice(["chunks", "matrix"]), own=rng.random() < 0.5,
        prior=rng.choice([[], ["scores"], ["matrix", "scores"], ["matrices"], ["bad"], ["bad", "score"]]),
        omit=rng.random() < 0.5, target=rng.choice(["ndcg", None, "map", "recall", "hit", "precision"]))
    opt.update(force or {})
    dtype = opt["dtype"]
    flat = [v for r in case["sc"] for v in r if v != NINF]
    levels = levels_for(rng, max(flat or [0]), dtype)
    ni, nu = case["ni"], case["nu"]
    sh = case.get("sh")
    gt = to_csr(case["gt"], ni, rng.choice([1.0, 3.0, VALS]), opt["gtfmt"], rng=rng, loose=True)
    kw = dict(cutoff=case["cuts"][0], n_threads=opt["threads"], recall_with_cutoff=case["rwc"],
              mb_size=opt["mb"])
    if opt["target"] is not None:
        kw["target_metric"] = opt["target"]
    if opt["omit"]:         # leave out what has its documented default value
        if kw["cutoff"] == 10:
            del kw["cutoff"]
        if not kw["recall_with_cutoff"]:
            del kw["recall_with_cutoff"]
        if kw["n_threads"] == 7:
            del kw["n_threads"]
        if kw["mb_size"] == 128:
            del kw["mb_size"]
    if case["hasmask"]:
        kw["masked_interactions"] = to_csr(case["mask"], sh["mc"] if sh else ni, rng.choice([VALS, 1.0]), opt["maskfmt"],
                                           rng.choice([0, 0, .3]), rng, loose=True)
    if case["reck"] == "global":
        kw["recommendable_items"] = list(case["rec"][0])
    elif case["reck"] == "user":
        kw["per_user_recommendable_items"] = (
            to_csr(case["rec"], ni, rng.choice([VALS, 1.0]), zeros=rng.choice([0, 0, .3]), rng=rng, loose=True) if opt["recfmt"] == "sparse" and rec_sparse_ok(case) else [list(r) for r in case["rec"]])
    side = {}

    def go():
        path = case["path"]
        if path in ("cold", "coldmat"):
            inp = to_csr(case["train"], sh["inc"] if sh else ni - case["ncold"], rng.choice([VALS, 1.0]), "csr", rng=rng, loose=True)
            if sh["feat"] if sh else case["ncold"]:
                f = np.ones((sh["fr"] if sh else case["ncold"], 2))
                kw["cold_item_features"] = sps.csr_matrix(f) if opt["feat"] == "sparse" else f
            ev = EvaluatorWithColdUser(inp, gt, **kw)
        else:
            ev = Evaluator(gt, offset=case["off"], **kw)
        if opt["pick"]:
            ev.core = pickle.loads(pickle.dumps(ev.core)) if opt.get("pickable", False) else ev.core
        for what in opt["prior"]:
            history(ev, what, case, dtype, levels, opt, rng)
        if path in ("matrix", "coldmat"):
            full = score_array(case["sc"], dtype, levels)
            if opt["stream"] == "matrix":
                full = np.asarray(full, order=opt["order"])
                before = full.copy()
                if opt["entry"] == "get_score":
                    res = [ev.get_score_from_score_matrix(full)]
                else:
                    res = split(ev.get_scores_from_score_matrix(full, case["cuts"]), case["cuts"])
                side["mutated"] = not np.array_equal(before, full)
            else:
                blocks, p = [], 0
                for b in case["blocks"]:
                    rows = [case["sc"][q] if q < len(case["sc"]) else [0] * ni
                            for q in range(p, p + b["rows"])]
                    p += b["rows"]
                    blocks.append(make_block(rows, b, dtype, levels, ni, rng, opt["order"]))
                before = [np.array(b, copy=True) if isinstance(b, np.ndarray) else b for b in blocks]
                gen = iter(blocks) if rng.random() < 0.5 else blocks
                if opt["entry"] == "get_score":
                    res = [ev.get_score_from_score_chunks(gen)]
                else:
                    res = split(ev.get_scores_from_score_chunks(gen, case["cuts"]), case["cuts"])
                side["mutated"] = any(isinstance(b, np.ndarray) and not np.array_equal(a, b)
                                      for a, b in zip(before, blocks))
        else:
            m = make_model(case, dtype, levels, opt["how"], own=opt["own"], order=opt["order"])
            xb = m.X_train_all.copy()
            tb = m._table.copy()
            if opt["entry"] == "get_score":
                res = [ev.get_score(m)]
                m.cursor = 0
                side["target"] = (ev.get_target_score(m), res[0][opt["target"] or "ndcg"])
            else:
                res = split(ev.get_scores(m, case["cuts"]), case["cuts"])
            side["mutated"] = (not np.array_equal(tb, m._table)) or (xb != m.X_train_all).nnz > 0
        return res

    r = call(go)
    return r, dict({k: (v.__name__ if isinstance(v, type) else v) for k, v in opt.items()}, levels=str(levels)[:60]), side


def history(ev, what, case, dtype, levels, opt, rng):
    """something the same evaluator did before, whatever came of it"""
    ni, nu = case["ni"], case["nu"]
    other = np.asarray([[rng.randint(0, 3) for _ in range(ni)] for _ in range(nu)], dtype=dtype).reshape(nu, ni)
    if what in ("score", "scores"):
        m = make_model(case, dtype, levels, opt["how"])
        call(ev.get_score, m) if what == "score" else call(ev.get_scores, m, [ni, 1])
    elif what == "matrix":
        call(ev.get_score_from_score_matrix, other)
    elif what == "matrices":
        call(ev.get_scores_from_score_matrix, other, [ni, max(1, ni // 2)])
    else:       # a stream that breaks off
        call(ev.get_scores_from_score_chunks, iter([other[:1], other[:0], other[:1, :0]]), [1, ni])


def rec_sparse_ok(case):
    return all(len(set(r)) == len(r) and all(0 <= i < case["ni"] for i in r) for r in case["rec"])


def shapes(case):
    """the shapes a well-formed case hands over"""
    warm = case["ni"] - case["ncold"]
    return dict(inr=len(case["train"]), inc=warm, feat=case["ncold"] > 0, fr=case["ncold"],
                mr=len(case["mask"]), mc=case["ni"],
                mu=len(case["train"]) if case["path"] == "model" else 2, mi=warm)


def split(d, cuts):
    out = []
    for c in cuts:
        out.append({k.rsplit("@", 1)[0]: v for k, v in d.items() if k.rsplit("@", 1)[1] == str(c)})
    return out


def make_block(rows, b, dtype, levels, ni, rng, order):
    k = b["kind"]
    if k == "ok":
        cols = b["cols"]
        if cols == ni:
            a = score_array(rows, dtype, levels) if rows else np.zeros((0, ni), dtype)
        else:
            a = np.zeros((len(rows), cols), dtype)
        return np.asarray(a, order=order)
    if k == "int":
        return np.zeros((b["rows"], ni), dtype=np.int64)
    if k == "half":
        return np.zeros((b["rows"], ni), dtype=np.float16)
    if k == "list":
        return [[0.0] * ni for _ in range(b["rows"])]
    if k == "1d":
        return np.zeros(ni, dtype=dtype)
    raise AssertionError(k)


METRICS = {"hit", "recall", "ndcg", "map", "precision", "gini_index", "entropy",
           "appeared_item", "catalog_coverage"} | COUNTS


def check_cases(ck, cases, key, names=METRICS, force=None, reps=1, expected=None):
    """Run all cases on the real code, compare with the model. Returns #runs."""
    exp = expected if expected is not None else ck.expect("EvaluatorReplay", cases)
    for case in cases:
        e = exp[case["id"]]
        for _ in range(reps):
            r, opt, side = run_real(case, ck.rng, force)
            ck.traces += 1
            data = dict(case=case, options=opt, got=str(r)[:1500], expected=e)
            if e["ok"] != (r[0] == "ok"):
                ck.violation(key + "/outcome",
                             f"expected {'a report' if e['ok'] else 'a rejection'}, got {str(r)[:200]}", data)
                continue
            if r[0] == "ok":
                bad = []
                for q, got in enumerate(r[1]):
                    b = compare(got, e["res"][q], names)
                    bad += [f"@{case['cuts'][q]} {x}" for x in b]
                if side.get("mutated"):
                    bad.append("caller-owned data was modified")
                if "target" in side and not close(*side["target"]):
                    bad.append(f"target score {side['target']}")
                if bad:
                    ck.violation(key + "/" + case["path"], "; ".join(bad[:4]), data)
            elif e["ok"] is False and r[1] not in ("ValueError", "TypeError"):
                ck.violation(key + "/error-type", f"rejected with {r[1]}: {r[2]}", data)
        if ck.nviol >= 12:
            return
