"""C08: temporal split."""
import numpy as np
import pandas as pd

import irsload
from vlib import call, run


def mktime(kind, t):
    if kind == "int":
        return t * 10 - 15
    if kind == "float":
        return t * 0.5 - 1.0
    if kind == "ts":
        return pd.Timestamp("2020-01-01") + pd.Timedelta(seconds=int(t))
    return "2020-%02d" % (t + 1)


def mkuser(kind, u):
    return {"int": lambda: u * 7 - 3, "str": lambda: "user%02d" % u, "float": lambda: u + 0.5}[kind]()


def one(ck, q):
    from irspack.split import split_last_n_interaction_df
    rng = ck.rng
    n = rng.choice([1, 2, 3, 6, 15, 40])
    nu = rng.choice([1, 2, 4])
    nt = rng.choice([1, 3, 50])
    log = [dict(u=rng.randrange(nu), t=rng.randrange(nt)) for _ in range(n)]
    if nt == 50 and rng.random() < .5:
        ts = rng.sample(range(n), n)
        log = [dict(u=l["u"], t=ts[k] % 12 if n > 40 else ts[k]) for k, l in enumerate(log)]
    uk, tk = rng.choice(["int", "str", "float"]), rng.choice(["int", "float", "ts"])
    ik = rng.choice(["range", "dup", "shuf", "str"])
    index = dict(range=list(range(n)), dup=[k // 2 for k in range(n)], shuf=rng.sample(range(100), n) if n <= 100 else list(range(n)),
                 str=["r%d" % (k % 3) for k in range(n)])[ik]
    ucol, tcol = rng.choice([("the user", "when"), ("user", "timestamp"), ("index", "level_0"), ("count", "size"), ("cumcount", "rank")])
    cols = {ucol: [mkuser(uk, l["u"]) for l in log], tcol: [mktime(tk, l["t"]) for l in log],
            "rowid": list(range(1, n + 1)), "payload": ["x%d" % k if rng.random() < .8 else None for k in range(n)],
            "value": [rng.choice([k / 2, np.nan]) for k in range(n)]}
    order = rng.sample(list(cols), len(cols))
    df = pd.DataFrame({k: cols[k] for k in order}, index=index)
    kind = rng.choice(["n", "floor", "ceil"])
    if kind == "n":
        num = rng.choice([0, 1, 2, 3, 100])
        rule = dict(kind="n", num=num, den=1)
        kw = dict(n_heldout=num)
        if rng.random() < .4:
            kw.update(heldout_ratio=rng.choice([0.0, .5, 1.0]), ceil_n_heldout=rng.random() < .5)
    else:
        num = rng.randint(0, 8)
        rule = dict(kind=kind, num=num, den=8)
        if rng.random() < .3:       # a hair off an eighth
            rule["eps"] = 1 if num == 0 else -1 if num == 8 else rng.choice([-1, 1])
        kw = dict(heldout_ratio=num / 8 + rule.get("eps", 0) * rng.choice([2.0 ** -27, 2.0 ** -42]), ceil_n_heldout=kind == "ceil")
        if rng.random() < .15:      # not given: a tenth
            rule.update(num=1, den=10, eps=0)
            kw.pop("heldout_ratio")
        if kind == "floor" and rng.random() < .5:
            kw.pop("ceil_n_heldout")
    before = df.copy(deep=True)
    r = call(split_last_n_interaction_df, df, ucol, tcol, **kw)
    c = dict(id=f"t{q}", log=log, rule=rule, outcome="ok" if r[0] == "ok" else r[1], train=[], test=[],
             content=True, kept=True)
    if r[0] == "ok":
        a, b = r[1]
        c["train"], c["test"] = [int(x) for x in a["rowid"]], [int(x) for x in b["rowid"]]
        for part in (a, b):
            ok = list(part.columns) == order and bool((part.dtypes == before.dtypes).all())
            if ok and len(part):
                want = before.iloc[[int(x) - 1 for x in part["rowid"]]]
                ok = part.equals(want) and list(part.index) == list(want.index)
            c["content"] = c["content"] and bool(ok)
    c["kept"] = df.equals(before) and list(df.index) == list(before.index)
    return c


def long_histories(ck):
    """users with more interactions than small integers count; the time stamps are all different, so the
    latest ones are known"""
    from irspack.split import split_last_n_interaction_df
    for n in (300, 33000) + ((70000,) if ck.thorough else ()):
        t = np.random.RandomState(ck.seed).permutation(2 * n)
        df = pd.DataFrame({"u": ["a", "b"] * n, "t": t, "k": np.arange(2 * n)})
        for kw, want in ((dict(n_heldout=3), 3), (dict(n_heldout=n - 5), n - 5), (dict(heldout_ratio=.75), int(n * .75)),
                         (dict(heldout_ratio=.25, ceil_n_heldout=True), -(-n // 4)), (dict(n_heldout=n + 7), n)):
            a, b = split_last_n_interaction_df(df, "u", "t", **kw)
            ck.traces += 1
            for u in "ab":
                own = df[df["u"] == u].sort_values("t")["k"]
                late, rest = set(own.iloc[n - want:]), set(own.iloc[:n - want])
                if set(b[b["u"] == u]["k"]) != late or set(a[a["u"] == u]["k"]) != rest or len(a) + len(b) != 2 * n:
                    ck.violation("time/long", f"{n} interactions of user {u}, {kw}: held-out rows are not the {want} latest ones")


def body(ck):
    irsload.load()
    ck.tlc("SplitTimeMC")
    ck.log("model checked")
    cases = [one(ck, q) for q in range(ck.pick(1500, 15000))]
    bad = ck.judge("SplitTimeTrace", cases)
    ck.count("splits", len(cases))
    ck.sample(cases[0])
    for c in cases:
        if c["id"] in bad:
            ck.violation("time/" + bad[c["id"]][0][:40], "; ".join(bad[c["id"]]), c)
    long_histories(ck)
    ck.assumptions = ["no missing users or time stamps; ratios are multiples of 1/8 or a hair off one"]


def main():
    run("C08", body)
