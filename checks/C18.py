"""C18: dataset readers return every record exactly."""
import builtins
import csv
import io
import zipfile

import numpy as np
import pandas as pd

import irsload
from checks.C17 import Pool
from vlib import call, run

L1 = ["Toy Story", "Amélie", '"Quoted" Tale', 'Say "Hi"', "Wings: The Return", "Star Wars: Episode I - x", "#1", "It's", "50% Off", "A, B",
      "Léon: The Professional", "¿Qué?", "(Not) Parenthesised", "'Til", '"Unbalanced', "007", "x ", "&c.", "\\back", "C1 \x96 dash", " led", "x  y"]
GENRES = ["unknown", "Action", "Adventure", "Animation", "Children's", "Comedy", "Crime", "Documentary", "Drama", "Fantasy", "Film-Noir", "Horror",
          "Musical", "Mystery", "Romance", "Sci-Fi", "Thriller", "War", "Western"]


def ts(rng):
    return rng.choice([0, 1, 86399, 978300760, 874724710, 1112486027, 2147483646, rng.randrange(10**9)])


def tstamp(v):
    return pd.Timestamp(v, unit="s")


class Reader:
    def __init__(self, ck):
        self.ck, self.n, self.cases = ck, 0, []

    def archive(self, members):
        self.n += 1
        p = self.ck.tmp / f"a{self.n}.zip"
        with zipfile.ZipFile(p, "w", compression=self.ck.rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
            for k, v in members.items():
                z.writestr(k, v)
        return p

    def add(self, name, kind, recs, r, rows, other=""):
        ok = r[0] == "ok"
        err = "" if ok else f"{r[1]}: {r[2]}"
        got = []
        if ok:
            try:
                got = rows(r[1])
            except Exception as e:  # noqa  (missing columns and the like)
                ok, err = False, f"result unusable: {type(e).__name__}: {e}"
        self.cases.append(dict(id=f"{name}.{len(self.cases)}", kind=kind, recs=recs, ok=ok, err=err[:200], got=got, other=other, ds=name))


def cols(df, names, P, index=None):
    out = []
    vals = [df.index.tolist()] if index else []
    if index and df.index.name != index:
        raise KeyError(f"index is {df.index.name!r}")
    for n in names:
        vals.append(df[n].tolist())
    for row in zip(*vals):
        out.append([P.get(x) for x in row])
    return out


def end(rng):
    return "\n" if rng.random() < .8 else ""


def inter(ck, rd, big=False):
    """the plain interaction logs"""
    from irspack.dataset import MovieLens1MDataManager, MovieLens20MDataManager, MovieLens100KDataManager
    rng = ck.rng
    for cls, path, sep, head, rat in [
            (MovieLens100KDataManager, "ml-100k/u.data", "\t", "", [1, 2, 3, 4, 5]),
            (MovieLens1MDataManager, "ml-1m/ratings.dat", "::", "", [1, 2, 3, 4, 5]),
            (MovieLens20MDataManager, "ml-20m/ratings.csv", ",", "userId,movieId,rating,timestamp\n", [.5, 1.0, 3.5, 5.0])]:
        n = 3000 if big else rng.choice([1, 2, 7, 30])
        P, recs, lines = Pool(), [], []
        for _ in range(n):
            f = [rng.choice([1, 2, 943, 6040, 131262]), rng.choice([1, 5, 1193, 131262]), rng.choice(rat), ts(rng)]
            lines.append(sep.join(map(str, f)))
            recs.append([P.put(float(f[0])), P.put(float(f[1])), P.put(float(f[2])), P.put(tstamp(f[3]))])
        m = cls(rd.archive({path: head + "\n".join(lines) + end(rng)}))
        rd.add(cls.__name__, "flat", recs, call(m.read_interaction),
               lambda df, P=P: cols(df, ["userId", "movieId", "rating", "timestamp"], P))


def ml1m(ck, rd):
    from irspack.dataset import MovieLens1MDataManager
    rng = ck.rng
    P, recs, lines = Pool(), [], []
    P.ids[""] = 0
    for mid in rng.sample(range(1, 4000), rng.choice([1, 3, 10])):
        t = rng.choice(L1)
        y = rng.choice([1919, 1995, 2000])
        style = rng.random()
        if rng.random() < .1:
            t += rng.choice([" (a.k.a. B)", " (1, 2)", " (I)"])
        title, year = (f"{t} ({y})", float(y)) if style < .8 else ((f"{t} (1990) ({y})", float(y)) if style < .9 else (f"{t} the end", ""))
        title += rng.choice(["", "", "", " "]) if year else ""
        g = "|".join(rng.sample(GENRES, rng.randint(1, 3)))
        lines.append(f"{mid}::{title}::{g}")
        recs.append([P.put(float(mid)), P.put(title), P.put(g), P.put(year)])
    ur, ul = [], []
    U = Pool()
    digits = rng.random() < .5
    for uid in rng.sample(range(1, 6041), rng.choice([1, 4])):
        z = rng.choice(["00501", "48067", "02139"] if digits else ["55117", "98107-2117", "00501", "V3N4P"])
        f = [uid, rng.choice("MF"), rng.choice([1, 18, 56]), rng.randrange(21), z]
        ul.append("::".join(map(str, f)))
        ur.append([U.put(float(f[0])), U.put(f[1]), U.put(float(f[2])), U.put(float(f[3])), U.put(z)])
    m = MovieLens1MDataManager(rd.archive({"ml-1m/movies.dat": ("\n".join(lines) + end(rng)).encode("latin-1"),
                                           "ml-1m/users.dat": "\n".join(ul) + end(rng)}))
    rd.add("ml1m-items", "flat", recs, call(m.read_item_info), lambda df: cols(df, ["title", "genres", "release_year"], P, "movieId"))
    rd.add("ml1m-users", "flat", ur, call(m.read_user_info), lambda df: cols(df, ["gender", "age", "occupation", "zipcode"], U, "userId"))


def ml100k(ck, rd):
    from irspack.dataset import MovieLens100KDataManager
    rng = ck.rng
    genres = rng.sample(GENRES, rng.choice([1, 3, 6, 12, 19]))
    P, G = Pool(), Pool()
    P.ids[""] = 0
    recs, flags, lines = [], [], []
    mon = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
    for mid in rng.sample(range(1, 1683), rng.choice([1, 3, 10])):
        t = rng.choice(L1)
        t += " (1995)" if t == "007" else rng.choice([" (1995)", ""])
        d = None if rng.random() < .15 else (rng.randint(1, 28), rng.randrange(12), rng.choice([1922, 1967, 1969, 1995, 1998]))
        url = rng.choice(["http://us.imdb.com/M/title-exact?Toy%20Story%20(1995)", ""])
        fl = [int(rng.random() < rng.choice([.1, .4])) for _ in genres]
        ds = "" if d is None else (f"{d[0]:02d}" if rng.random() < .8 else f"{d[0]}") + f"-{mon[d[1]]}-{d[2]}"
        lines.append("|".join([str(mid), t, ds, "", url, *map(str, fl)]))
        recs.append([P.put(float(mid)), P.put(t), P.put("" if d is None else pd.Timestamp(year=d[2], month=d[1] + 1, day=d[0])), P.put(url)])
        flags.append([G.put(float(mid)), fl])
    if not any(any(f[1]) for f in flags):
        return
    U, ur, ul = Pool(), [], []
    digits = rng.random() < .5
    for uid in rng.sample(range(1, 944), rng.choice([1, 4])):
        z = rng.choice(["00501", "48067", "02139"] if digits else ["55117", "T8H1N", "00501", "V3N4P"])
        f = [uid, rng.randint(7, 73), rng.choice("MF"), rng.choice(["technician", "none", "other", "writer"]), z]
        ul.append("|".join(map(str, f)))
        ur.append([U.put(float(f[0])), U.put(float(f[1])), U.put(f[2]), U.put(f[3]), U.put(z)])
    arch = rd.archive({"ml-100k/u.item": ("\n".join(lines) + end(rng)).encode("latin-1"),
                       "ml-100k/u.genre": "".join(f"{g}|{k}\n" for k, g in enumerate(genres)) + rng.choice(["", "\n"]),
                       "ml-100k/u.user": "\n".join(ul) + end(rng)})
    m = MovieLens100KDataManager(arch)
    r = call(m.read_item_info)
    ri = r if r[0] == "err" else ("ok", r[1][0])
    rg = r if r[0] == "err" else ("ok", r[1][1])
    rd.add("ml100k-items", "flat", recs, ri, lambda df: cols(df, ["title", "release_date", "URL"], P, "movieId"))
    rd.add("ml100k-genres", "flags", flags, rg,
           lambda df: [[G.get(float(a)), genres.index(b) + 1 if b in genres else -1] for a, b in zip(df["movieId"].tolist(), df["genre"].tolist())])
    rd.add("ml100k-users", "flat", ur, call(m.read_user_info), lambda df: cols(df, ["age", "gender", "occupation", "zipcode"], U, "userId"))


def cite(ck, rd):
    from irspack.dataset import CiteULikeADataManager
    rng = ck.rng
    recs, lines = [], []
    for _ in range(rng.choice([1, 3, 8])):
        top = rng.choice([4, 17000])      # ids may repeat, or equal the count
        its = [rng.randrange(top) for _ in range(rng.choice([0, 1, 5, 12]))]
        n = len(its) + (rng.choice([1, -1]) if rng.random() < .03 else 0)
        recs.append([n, its])
        lines.append(rng.choice([" ", " "]).join(map(str, [n, *its])) + rng.choice(["", " "]))
    P, mr = Pool(), []
    b = io.StringIO()
    w = csv.writer(b)
    w.writerow(["doc.id", "title", "citeulike.id", "raw.title", "raw.abstract"])
    for k in rng.sample(range(50), rng.choice([1, 4])):
        t, a = rng.choice([x for x in L1 if x != "007"]), rng.choice(['An "abstract", with\ncommas', "plain", "é…".encode("latin-1", "ignore").decode("latin-1")])
        w.writerow([k + 1, t, 100 + k, t.upper(), a])
        mr.append([P.put(float(k)), P.put(t), P.put(float(100 + k)), P.put(t.upper()), P.put(a)])
    m = CiteULikeADataManager(rd.archive({"citeulike-a-master/users.dat": "\n".join(lines) + end(rng),
                                          "citeulike-a-master/raw-data.csv": b.getvalue().encode("latin-1")}))
    rd.add("citeulike", "list", recs, call(m.read_interaction),
           lambda df: [[int(a), int(b_)] for a, b_ in zip(df["user_id"].tolist(), df["item_id"].tolist())])
    rd.add("citeulike-meta", "flat", mr, call(m.read_item_meta),
           lambda df: cols(df, ["title", "citeulike.id", "raw.title", "raw.abstract"], P, "doc.id"))


def neumf(ck, rd):
    from irspack.dataset import NeuMFML1MDownloader, NeuMFMPinterestDownloader
    rng = ck.rng
    P, tr, tl = Pool(), [], []
    for _ in range(rng.choice([1, 5, 20])):
        f = [rng.randrange(rng.choice([3, 6040])), rng.randrange(rng.choice([3, 3706])), rng.randint(1, 5), ts(rng)]
        tl.append("\t".join(map(str, f)))
        tr.append([P.put(float(f[0])), P.put(float(f[1])), P.put(float(f[2])), P.put(tstamp(f[3]))])
    recs, lines = [], []
    users = list(range(rng.choice([1, 3, 8])))
    if rng.random() < .3:
        users.append(users[0])      # the user appears on two lines
    for u in users:
        top = rng.choice([12, 400])
        pos = rng.randrange(top)
        neg = [rng.randrange(top) for _ in range(rng.choice([0, 1, 5, 99, 130]))]
        recs.append([u, pos, neg])
        sp = rng.choice(["", "", " "])
        lines.append("\t".join([f"({sp}{u},{sp}{pos})", *map(str, neg)]) + rng.choice(["", "\t"]))
    cls = rng.choice([NeuMFML1MDownloader, NeuMFMPinterestDownloader])
    m = cls(rd.archive({"train": "\n".join(tl) + end(rng), "test": "\n".join(lines) + end(rng)}))
    r = call(m.read_train_test)
    r1 = r if r[0] == "err" else ("ok", r[1][0])
    r2 = r if r[0] == "err" else ("ok", r[1][1])
    rd.add("neumf-train", "flat", tr, r1, lambda df: cols(df, ["user_id", "item_id", "rating", "timestamp"], P))
    rd.add("neumf-test", "onevs", recs, r2,
           lambda df: [[int(a), int(b), int(bool(c))] for a, b, c in zip(df["user_id"].tolist(), df["item_id"].tolist(), df["positive"].tolist())])


EVIL = ["{'asin': 'E', 'title': setattr(__import__('builtins'), 'VERIF_RAN', True)}",
        "setattr(__import__('builtins'), 'VERIF_RAN', True) or {'asin': 'E'}",
        "{'asin': 'E', 'categories': [setattr(__import__('builtins'), 'VERIF_RAN', True)]}"]


def amazon(ck, rd, big=False):
    from irspack.dataset import AmazonMusicDataManager
    rng = ck.rng
    P, tr, tl = Pool(), [], []
    digits = rng.random() < .3
    n = 40000 if big else rng.choice([1, 5, 20])
    for k in range(n):
        item = "0001393774" if digits else rng.choice(["5555991584", "B00000016W", "0001501348"])
        if big:       # a long file that starts with number-like ids
            item = f"{k % 700:010d}" if k < n - 3000 else f"B{k % 9:09d}"
        f = [rng.choice(["A3EBHHCZO6V2A4", "0012", "A1"]) if not digits else "0012", item, rng.choice([1.0, 4.0, 5.0]), rng.choice([978300760, 1112486027])]
        tl.append(",".join(map(str, f)))
        tr.append([P.put(f[0]), P.put(f[1]), P.put(f[2]), P.put(float(f[3]))])
    Q, recs, ml = Pool(), [], []
    Q.ids[""] = 0
    ran = rng.random() < .15
    for k in range(rng.choice([1, 3, 8])):
        meta = {"asin": rng.choice(["5555991584", "B00000016W"]) + str(k if rng.random() < .8 else 0)}
        meta = dict(salesRank={"Music": 3}, **meta) if rng.random() < .5 else meta
        if rng.random() < .7:
            meta["title"] = rng.choice(L1 + ["", "NA", "None", "日本", "new\nline", 'mix \'"'])
        if rng.random() < .6:
            meta["price"] = rng.choice([9.49, 0.99, 12, 0.0, 0])
        if rng.random() < .6:
            meta["categories"] = rng.choice([[["CDs & Vinyl", "Pop"]], [["A"], ["B"]], [[]]])
        ml.append(repr(meta))
        cat = meta.get("categories", [None])[0]
        recs.append([Q.put(meta["asin"]), Q.put(meta.get("title", "")), Q.put(meta.get("price", "")), Q.put("" if cat is None else tuple(cat))])
    if ran:
        ml.insert(rng.randint(0, len(ml)), rng.choice(EVIL))
        recs.append([])
    m = AmazonMusicDataManager(rd.archive({"amazon-music/ratings.csv": "\n".join(tl) + end(rng),
                                           "amazon-music/music-meta.json": "\n".join(ml) + end(rng)}))
    rd.add("amazon", "flat", tr, call(m.read_interaction), lambda df: cols(df, ["user_id", "music_id", "rating", "timestamp"], P))
    if hasattr(builtins, "VERIF_RAN"):
        del builtins.VERIF_RAN
    r = call(m.read_metadata)
    other = "content of the data file was executed" if hasattr(builtins, "VERIF_RAN") else ""

    def rows(df):
        d = df.copy()
        d["categories"] = [tuple(x) if isinstance(x, list) else x for x in df["categories"].tolist()]
        return cols(d, ["title", "price", "categories"], Q, "music_id")
    rd.add("amazon-meta", "script", recs, r, rows, other)


def body(ck):
    irsload.load_bare()
    rd = Reader(ck)
    for q in range(ck.pick(60, 900)):
        inter(ck, rd, big=q == 0)
        ml1m(ck, rd)
        ml100k(ck, rd)
        cite(ck, rd)
        neumf(ck, rd)
        amazon(ck, rd)
    amazon(ck, rd, big=True)
    ck.log("read", len(rd.cases))
    big = [c for c in rd.cases if len(c["recs"]) > 2000]
    small = [c for c in rd.cases if len(c["recs"]) <= 2000]
    for c in big:     # compared segment by segment (flat files only)
        n = len(c["recs"])
        for k in range(0, n, 1000):
            small.append(dict(c, id=f"{c['id']}.{k}", recs=c["recs"][k:k + 1000],
                              got=c["got"][k:k + 1000] if k + 1000 < n else c["got"][k:]))
    bad = ck.judge("Readers", small)
    for c in small:
        if c["id"] in bad:
            if len(c["recs"]) > 100:
                c = dict(c, recs=c["recs"][:20], got=c["got"][:20])
            ck.violation(f"read/{c['ds']}", f"{c['ds']}: " + "; ".join(bad[c["id"]])[:400], c)
    ck.count("files_read", len(rd.cases))
    ck.sample(rd.cases[1])
    ck.assumptions = ["files follow their published format; MovieLens/CiteULike titles are not spelled like a missing value"]


def main():
    run("C18", body)
