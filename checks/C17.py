"""C17: reading the MIND behaviour logs, articles and embeddings."""
import datetime
import json
import zipfile

import numpy as np
import pandas as pd

import irsload
from vlib import call, run

WORDS = ["the", "Joker", '"', '"Joker"', "'s", "a,b", "NA", "null", "None", "nan", "N/A", "#1", "50%", "\\n", "\\", "é", "日本", "–",
         "1.0", "007", "True", "-", "inf", '""', "|", "::", "{", "}", "x y", "\u2028x", "\u00a0", "&amp;", "=1+1"]


class Pool:
    """interning of exact texts"""

    def __init__(self):
        self.ids = {}

    def put(self, x):
        return self.ids.setdefault(x, len(self.ids) + 1)

    def get(self, x):
        if x is None or (isinstance(x, float) and np.isnan(x)) or x is pd.NaT:
            x = ""
        try:
            return self.ids.get(x, -1)
        except TypeError:
            return -2


def text(rng, empty=.1):
    if rng.random() < empty:
        return ""
    s = rng.choice(["", " ", ""]).join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 2, 4])))
    s = s.strip("\u00a0 ") or "z"
    return rng.choice(["", "", "", " ", "  "]) + s + rng.choice(["", "", "", " "])


def stamp(rng):
    return datetime.datetime(2019, rng.randint(1, 12), rng.randint(1, 28), rng.choice([0, 1, 9, 11, 12, 13, 23]), rng.randint(0, 59), rng.randint(0, 59))


def fmt(t, rng):
    h = t.hour % 12 or 12
    ap = "AM" if t.hour < 12 else "PM"
    return rng.choice([f"{t.month}/{t.day}/{t.year} {h}:{t.minute:02d}:{t.second:02d} {ap}",
                       f"{t.month:02d}/{t.day:02d}/{t.year} {h:02d}:{t.minute:02d}:{t.second:02d} {ap}"])


def one(ck, q):
    from irspack.dataset import MINDDataManager
    rng = ck.rng
    P = Pool()
    P.ids[""] = 0
    d = ck.tmp / f"m{q}"
    d.mkdir()
    splits, files, raw_ent = [], {}, {}
    allnews = [f"N{rng.choice([1, 10])}{k}" for k in range(8)] + ["A-B", "7", "N-1-0"]
    plain = rng.random() < .3           # every text numeric-looking: types must not be guessed
    for name in ("train", "dev"):
        rows, lines = [], []
        n = rng.choice([1, 2, 6])
        ids = rng.sample(range(1, 40), n)
        for k in range(n):
            u = rng.choice(["U1", "U2", "U33", "NA", "12", "007"]) if rng.random() < .5 else f"U{rng.randint(1, 5)}"
            if plain:
                u = rng.choice(["12", "007", "1e3"])
            t = stamp(rng)
            hist = " ".join(rng.choice(allnews) for _ in range(rng.choice([0, 1, 3])))
            cands = [[rng.choice(allnews), rng.choice([0, 0, 1])] for _ in range(rng.choice([1, 2, 5]))]
            imp = " ".join(f"{i}-{l}" for i, l in cands)
            lines.append("\t".join([str(ids[k]), u, fmt(t, rng), hist, imp]))
            rows.append([ids[k], P.put(u), P.put(pd.Timestamp(t)), P.put(hist), P.put(imp), [[P.put(i), l] for i, l in cands]])
        beh = "\n".join(lines) + ("\n" if rng.random() < .8 else "")
        news, nl = [], []
        for k in range(rng.choice([1, 3, 7])):
            ent = [rng.choice(["", "[]", json.dumps([{"Label": text(rng), "WikidataId": f"Q{rng.randint(1, 9)}", "Confidence": 1.0,
                                                      "OccurrenceOffsets": [0]}]),
                               json.dumps([{"Label": "é", "q": '"'}], ensure_ascii=False)]) for _ in range(2)]
            f = [rng.choice(allnews)] + [rng.choice(["1", "2", "007"]) if plain else text(rng, 0 if j < 3 else .2) for j in range(5)] + ent
            nl.append("\t".join(f))
            news.append([P.put(f[0])] + [P.put(x) for x in f[1:]])
        splits.append(dict(name=1 if name == "train" else 2, rows=rows, news=news))
        files[name] = (beh, "\n".join(nl) + ("\n" if rng.random() < .8 else ""))
    other = []
    layout = {}
    for name in ("train", "dev"):
        pre = rng.choice(["", "", f"MIND_{name}/", "a/b/"])
        layout[name] = pre
        emb = {}
        with zipfile.ZipFile(d / f"{name}.zip", "w", compression=rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
            z.writestr(pre + "behaviors.tsv", files[name][0])
            z.writestr(pre + "news.tsv", files[name][1])
            if rng.random() < .4:       # decoys that only look alike
                z.writestr(pre + "old_behaviors.tsv", "garbage")
                z.writestr("__MACOSX/" + "._news.tsv", "garbage")
                if pre == "":
                    z.writestr("backup/behaviors.tsv", "1\tU9\t11/13/2019 8:36:57 AM\tN0\tN1-1")
            for fn in ("entity_embedding.vec", "relation_embedding.vec"):
                dim = rng.choice([1, 3, 100])
                v = [(f"{fn[0].upper()}{k}", [repr(round(rng.uniform(-1, 1), 6)) if rng.random() < .9 else rng.choice(["0.0", "-1e-07", "1", "123456.789"])
                                              for _ in range(dim)]) for k in range(rng.choice([1, 4]))]
                emb[fn] = v
                z.writestr(pre + fn, "\n".join("\t".join([a, *b]) for a, b in v) + "\n")
        layout[name + "e"] = emb
    m = MINDDataManager(d / "train.zip", d / "dev.zip")
    obs = dict(beh=[], long=[], clicked=[], inter=[], news=[], other="")

    def col(df, names):
        miss = [x for x in names if x not in df.columns]
        if miss:
            raise KeyError(f"missing columns {miss}")
        if set(df.columns) != set(names):
            other.append(f"columns {sorted(set(df.columns) ^ set(names))}")
        return zip(*[df[x].tolist() for x in names])
    which = rng.choice([None, None, "train", "dev"])
    names = ["train", "dev"] if which is None else [which]
    sid = {"train": 1, "dev": 2}

    def go():
        for nm in names:
            for a in col(m.read_behaviors(*(() if nm == "train" and rng.random() < .5 else (nm,))), ["impression_id", "user_id", "timestamp", "history", "impressions"]):
                obs["beh"].append([int(a[0]), *[P.get(x) for x in a[1:]]])
        kw = {} if which is None else dict(split=which)
        for key, f in (("long", rng.choice([{}, dict(clicked_only=False)])), ("clicked", dict(clicked_only=True))):
            df = m.read_impressions(**kw, **f)
            for a in col(df, ["impression_id", "user_id", "timestamp", "item_id", "clicked", "position", "split"]):
                obs[key].append([int(a[0]), P.get(a[1]), P.get(a[2]), P.get(a[3]), int(a[4]) if a[4] in (True, False) else -1, int(a[5]), sid.get(a[6], -1)])
            if list(df.index) != list(range(len(df))):
                other.append("index is not 0..n-1")
        df = m.read_interaction(**kw)
        for a in col(df, ["impression_id", "user_id", "timestamp", "item_id", "split"]):
            obs["inter"].append([int(a[0]), P.get(a[1]), P.get(a[2]), P.get(a[3]), sid.get(a[4], -1)])
        cols = ["category", "subcategory", "title", "abstract", "url", "title_entities", "abstract_entities"]
        df = m.read_item_info(**kw, parse_entities=False)
        for i, a in zip(df.index.tolist(), col(df, cols)):
            obs["news"].append([P.get(i), *[P.get(x) for x in a]])
        df2 = m.read_item_info(**kw)
        if list(df2.index) != list(df.index) or not df2[cols[:5]].equals(df[cols[:5]]):
            other.append("parsing entities changes the articles")
        for c_ in cols[5:]:
            for t_, v in zip(df[c_].tolist(), df2[c_].tolist()):
                want = json.loads(t_) if isinstance(t_, str) and t_ else []
                if v != want or type(v) is not list:
                    other.append(f"entities {v!r} are not {want!r}")
        for nm in names:
            for fn, f in (("entity_embedding.vec", m.read_entity_embeddings), ("relation_embedding.vec", m.read_relation_embeddings)):
                e = f(*(() if nm == "train" and rng.random() < .5 else (nm,)))
                want = layout[nm + "e"][fn]
                if e.index.tolist() != [a for a, _ in want]:
                    other.append(f"{fn} ids {e.index.tolist()[:3]}")
                    continue
                W = np.array([[float(x) for x in b] for _, b in want])
                if e.shape != W.shape or not np.allclose(e.to_numpy(dtype=float), W, rtol=2e-7, atol=1e-12):
                    other.append(f"{fn} values")
                if e.columns.tolist() != [f"embedding_{k}" for k in range(W.shape[1])]:
                    other.append("embedding columns")
    r = call(go)
    m.close()
    if r[0] == "err":
        other.append(f"{r[1]}: {r[2]}")
    obs["other"] = "; ".join(other[:3])[:300]
    return dict(id=f"m{q}", splits=[s for s in splits if which is None or s["name"] == sid[which]], obs=obs), files


def locating(ck):
    """nested, missing, ambiguous members; invalid splits; malformed entities"""
    from irspack.dataset import MINDDataManager
    B = "1\tU1\t11/13/2019 8:36:57 AM\tN0\tN1-1\n"
    d = ck.tmp / "loc"
    d.mkdir()
    n = 0

    def make(members):
        nonlocal n
        n += 1
        with zipfile.ZipFile(d / f"{n}.zip", "w") as z:
            for k, v in members.items():
                z.writestr(k, v)
        return MINDDataManager(d / f"{n}.zip", d / f"{n}.zip")
    W = B.replace("U1", "WRONG")
    for members, want in [({"behaviors.tsv": B}, "U1"), ({"x/behaviors.tsv": B}, "U1"), ({"x/y/z/behaviors.tsv": B}, "U1"),
                          ({"behaviors.tsv": B, "x/behaviors.tsv": W}, "U1"), ({"x/behaviors.tsv": W, "behaviors.tsv": B}, "U1"),
                          ({"a/behaviors.tsv": B, "b/behaviors.tsv": W}, KeyError), ({"news.tsv": B}, KeyError),
                          ({"mybehaviors.tsv": W}, KeyError), ({"x/old_behaviors.tsv": W, "x/behaviors.tsv": B}, "U1"),
                          ({"behaviors.tsv.bak": W}, KeyError), ({"behaviors.tsv/x": W}, KeyError)]:
        m = make(members)
        r = call(m.read_behaviors, "train")
        ck.traces += 1
        if want is KeyError:
            if r[0] != "err" or r[1] != "KeyError":
                ck.violation("mind-read/locate", f"members {list(members)} were not rejected: {str(r)[:150]}")
        elif r[0] != "ok" or r[1]["user_id"].tolist() != [want]:
            ck.violation("mind-read/locate", f"members {list(members)}: {str(r)[:200]}")
        m.close()
    m = make({"behaviors.tsv": B, "news.tsv": 'N1\ta\tb\tc\td\te\t{"a": 1}\t[]\n', "entity_embedding.vec": "Q\t1\n", "relation_embedding.vec": "Q\t1\n"})
    for f in (m.read_behaviors, m.read_impressions, m.read_interaction, m.read_item_info, m.read_entity_embeddings, m.read_relation_embeddings):
        for s in ("test", "Train", "", "validation"):
            r = call(f, s)
            ck.traces += 1
            if r[0] != "err" or r[1] != "ValueError":
                ck.violation("mind-read/split", f"split {s!r} of {f.__name__} is not rejected: {str(r)[:120]}")
    r = call(m.read_item_info)
    if r[0] != "err" or r[1] != "ValueError":
        ck.violation("mind-read/entities", f"an entity field that is no list is not rejected: {str(r)[:120]}")
    m.close()


def body(ck):
    irsload.load_bare()
    cases, src = [], {}
    for q in range(ck.pick(250, 4000)):
        c, files = one(ck, q)
        cases.append(c)
        src[c["id"]] = files
    bad = ck.judge("MindRead", cases)
    for c in cases:
        if c["id"] in bad:
            ck.violation(f"mind-read/{bad[c['id']][0][:30]}", "; ".join(bad[c["id"]])[:500], dict(case=c, files=src[c["id"]]))
    ck.sample(cases[0])
    locating(ck)
    ck.assumptions = ["fields contain no tab, line feed or carriage return; impression ids are unique within a split; every impression has a candidate"]


def main():
    run("C17", body)
