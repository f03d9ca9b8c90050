"""C15: dataset archives are complete or absent after any download."""
import builtins
import gzip
import io
import json
import os
import resource
import signal
import sys
import threading
import time
import zipfile
from pathlib import Path

import irsload
import vlib
from fakenet import Bomb, Net, in_child
from vlib import run


def zbytes(members, pad=0):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for k, v in members.items():
            z.writestr(zipfile.ZipInfo(k, (2020, 1, 1, 0, 0, 0)), v)
        if pad:
            z.writestr(zipfile.ZipInfo("pad", (2020, 1, 1, 0, 0, 0)), bytes((i * i >> 3) & 255 for i in range(pad)))
    return b.getvalue()


def targets():
    """name -> (class, [(url, body)], complete(dest bytes) -> bool)"""
    from irspack.dataset import (AmazonMusicDataManager, MovieLens1MDataManager, MovieLens20MDataManager,
                                 MovieLens100KDataManager, NeuMFML1MDownloader, NeuMFMPinterestDownloader)
    from irspack.dataset.citeulike import CiteULikeADataManager
    out = {}
    strip = lambda u: u.split("://", 1)[1]
    for cls in (MovieLens100KDataManager, MovieLens1MDataManager, MovieLens20MDataManager, CiteULikeADataManager):
        body = zbytes({"a": cls.__name__}, 40000)
        out[cls.__name__] = (cls, [(strip(cls.DOWNLOAD_URL), body)], lambda d, body=body: d == body)

    def members(want):
        def ok(d):
            try:
                with zipfile.ZipFile(io.BytesIO(d)) as z:
                    return z.testzip() is None and {n: z.read(n) for n in z.namelist()} == want
            except Exception:
                return False
        return ok
    for cls in (NeuMFML1MDownloader, NeuMFMPinterestDownloader):
        tr, te = b"\n0\t1\t5\t978300760\r\n" * 900 + b" ", b"(0,25)\t1064\t174\t\n\n" * 900 + b"\xe9"
        out[cls.__name__] = (cls, [(strip(cls.TRAIN_URL), tr), (strip(cls.NEGATIVE_URL), te)],
                             members({cls._TRAIN_NAME: tr, cls._TEST_NAME: te}))
    base = "snap.stanford.edu/data/amazon/productGraph/categoryFiles/"
    ra = b"A1,B2,5.0,1200000\r\n\n" * 1000 + b"\xff,"
    js = b"\n{}\r\n \n" + b"".join(b"{'asin': 'x%d', 'title': 'T%d'}\n" % (i, i * i) for i in range(1500)) + b"\n\xff no end"
    out["AmazonMusicDataManager"] = (
        AmazonMusicDataManager, [(base + "ratings_Digital_Music.csv", ra), (base + "meta_Digital_Music.json.gz", gzip.compress(js))],
        members({"amazon-music/ratings.csv": ra, "amazon-music/music-meta.json": js}))
    return out


FOREIGN = zbytes({"other": "x"})


def once(*a):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    raise KeyboardInterrupt()


class Lab:
    def __init__(self, ck):
        self.ck, self.n = ck, 0
        self.net = Net()
        self.root = ck.tmp / "lab"
        self.root.mkdir()
        self.home = ck.tmp / "home"
        self.home.mkdir(exist_ok=True)

    def fresh(self):
        self.n += 1
        d = self.root / str(self.n)
        d.mkdir()
        return d

    def attempt(self, tgt, dest, consent, fault, bomb=None, default=False, kind="path"):
        """one attempt in a child process -> observation"""
        cls, parts, complete = tgt
        rng = self.ck.rng
        plan, stall = {}, None
        for k, (url, body) in enumerate(parts, 1):
            p = dict(body=body, part=rng.choice([.05, .5, .97]), chunked=rng.random() < .2)
            if fault["part"] == k and fault["kind"] != "disk":
                p["fault"] = {"refused": "refused", "drop": "drop", "short": "short", "mute": "mute",
                              "interrupt": "stall", "kill": "stall"}[fault["kind"]]
                if p["fault"] == "refused":
                    p["status"] = rng.choice([401, 403, 404, 500, 503])
                if p["fault"] == "stall":
                    stall = p["reached"] = threading.Event()
            plan[url] = p
        self.net.reset(plan)
        before = dest.read_bytes() if dest.exists() else None
        bm = dest.stat().st_mtime_ns if dest.exists() else None
        answer = rng.choice(["y", "Y"]) if consent == "yes" else rng.choice(["n", "N", "", "no", "x", "q"])
        arg = None if default else (str(dest) if kind == "str" else dest)
        res = {}

        def go():
            signal.signal(signal.SIGINT, once)
            prompts = []

            def ask(*a):
                prompts.append(1)
                return answer
            builtins.input = ask
            out = "ok"
            b = None
            try:
                if bomb:
                    b = Bomb(*bomb)
                    sys.setprofile(b)
                if fault["kind"] == "disk":
                    resource.setrlimit(resource.RLIMIT_FSIZE, (4000, resource.RLIM_INFINITY))
                fkw = dict(force_download=consent == "force")
                if consent != "force" and rng.random() < .5:
                    fkw = {}            # not given: ask
                cls(arg, **fkw)
            except BaseException as e:  # noqa
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
                out = "refused" if prompts and consent == "no" and isinstance(e, RuntimeError) else "error"
                res["e"] = repr(e)[:200]
            finally:
                sys.setprofile(None)
            r = dict(outcome=out, prompted=bool(prompts), e=res.get("e", ""))
            if b is not None and b.n is None:
                r["names"] = b.names
            with open(self.root / "names.json", "w") as f:
                json.dump(r.pop("names", []), f)
            return json.dumps(r)

        vlib._tick()
        stopper = None
        if stall is not None and fault["kind"] == "interrupt":
            # Ctrl-C while the body is in transfer
            stopper = stall
            s = self._child_sigint(go, stall)
        else:
            s = in_child(go, kill_when=stall)
        if s in ("killed", "died"):
            o = dict(outcome="killed", prompted=consent != "force", e="")
        elif s == "hung":
            o = dict(outcome="hung", prompted=False, e="")
        elif s.startswith("raised:"):
            o = dict(outcome="error", prompted=consent != "force", e=s)
        else:
            o = json.loads(s)
        urls = {r["url"] for r in self.net.seen()}
        known = {u for u, _ in parts}
        nreq = len(urls) if urls <= known else 99
        if not dest.exists():
            d = "absent"
        else:
            now = dest.read_bytes()
            if before is not None:
                d = "same" if now == before and dest.stat().st_mtime_ns == bm else "changed"
            else:
                d = "complete" if complete(now) else "partial"
        return dict(consent=consent, fault=fault, prompted=o["prompted"], nreq=nreq, outcome=o["outcome"], dest=d, e=o["e"])

    def _child_sigint(self, go, ev):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                s = go()
            except BaseException as e:  # noqa
                s = "raised:" + type(e).__name__
            os.write(w, s.encode())
            os._exit(0)
        os.close(w)
        done, hit, t0 = False, 0, time.time()
        while not done:
            time.sleep(.004)
            done = bool(os.waitpid(pid, os.WNOHANG)[0])
            if not done and ev.is_set():
                hit += 1
                if hit % 25 == 1:
                    os.kill(pid, signal.SIGINT)
            if not done and time.time() - t0 > 20:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                done = True
        s = os.read(r, 65536).decode()
        os.close(r)
        return s or "killed"

    def history(self, cid, tgt, first, attempts, default=False):
        d = self.fresh()
        dest = tgt[0].DEFAULT_PATH if default else d / "x.zip"
        if default:
            assert str(dest).startswith(str(self.home)), dest
            dest.unlink(missing_ok=True)
        if first == "foreign":
            dest.write_bytes(FOREIGN)
        state, hist = first, []
        for a in attempts:
            o = self.attempt(tgt, dest, a["consent"], a["fault"], bomb=a.get("bomb"), default=default,
                             kind=self.ck.rng.choice(["path", "str"]))
            if o["dest"] == "same":
                o["dest"] = state
            hist.append(o)
            state = o["dest"]
        # a refusal or a look at an existing archive leaves nothing else behind
        stray = [p.name for p in d.iterdir() if p != dest]
        if stray and all(h["outcome"] in ("refused",) or h["nreq"] == 0 for h in hist):
            hist[-1]["dest"] = "stray files " + ",".join(stray)
        return dict(id=cid, p=len(tgt[1]), first=first, hist=[{k: v for k, v in h.items() if k != "e"} for h in hist],
                    cls=tgt[0].__name__, e=[h["e"] for h in hist])


NONE = dict(part=0, kind="none")


def together(ck, lab, tg):
    """openings of the same archive at the same time"""
    import together as tog
    for p in (1, 2, 3):
        hs = [h["hist"] for h in ck.tlc("DownloaderPair", f"DownloaderPair{p}").prints]
        ck.count("concurrent_openings_enumerated", len(hs))
        names = [n for n, t in tg.items() if len(t[1]) == (1 if p == 3 else p)]
        ck.rng.shuffle(hs)
        for k, h in enumerate(hs[:ck.pick(40, 1500)]):
            cls, parts, complete = tg[names[k % len(names)]]
            threads = ck.rng.random() < .5 and not any(s["do"] == "kill" for s in h)
            dest = lab.fresh() / "x.zip"

            def look():
                return "absent" if not dest.exists() else "complete" if complete(dest.read_bytes()) else "partial"
            vlib._tick()
            bad = tog.replay(lab.net, parts, lambda: cls(dest, force_download=True), look, h, threads, ck.rng)
            ck.traces += 1
            ck.count("concurrent_openings_replayed")
            if bad:
                ck.violation(f"download/{cls.__name__}/together", "; ".join(bad[:3]), dict(hist=h, threads=threads))
    ck.log("concurrent openings")


def body(ck):
    os.environ["HOME"] = str(ck.tmp / "home")
    os.environ["TMPDIR"] = str(ck.tmp / "tmpd")
    (ck.tmp / "tmpd").mkdir()
    import tempfile
    tempfile.tempdir = None
    irsload.load_bare()
    lab = Lab(ck)
    tg = targets()
    one = [n for n, t in tg.items() if len(t[1]) == 1]
    two = [n for n, t in tg.items() if len(t[1]) == 2]
    cases = []
    for p, names in ((1, one), (2, two)):
        hs = ck.tlc("DownloaderMC", f"DownloaderMC{p}").prints
        ck.count("histories_enumerated", len(hs))
        ck.rng.shuffle(hs)
        if not ck.thorough:
            hs = hs[:110]
        for k, h in enumerate(hs):
            for name in (names if ck.thorough else [names[k % len(names)]]):
                cases.append(lab.history(f"h{p}.{k}.{name}", tg[name], h["first"], h["hist"]))
    ck.log("histories replayed", len(cases))
    # every fault of every part on every class
    for name, t in tg.items():
        for part in range(1, len(t[1]) + 1):
            for kind in ("refused", "drop", "short", "mute", "interrupt", "kill"):
                cases.append(lab.history(f"f.{name}.{part}.{kind}", t, "absent",
                                         [dict(consent="force", fault=dict(part=part, kind=kind)), dict(consent="yes", fault=NONE)]))
        cases.append(lab.history(f"g.{name}", t, "absent", [dict(consent="force", fault=dict(part=1, kind="disk")), dict(consent="force", fault=NONE)]))
        cases.append(lab.history(f"d.{name}", t, "absent", [dict(consent="force", fault=NONE), dict(consent="no", fault=NONE)], default=True))
        cases.append(lab.history(f"d2.{name}", t, "foreign", [dict(consent="force", fault=NONE)], default=True))
        # an existing file that is no archive: an error, nothing fetched, nothing changed
        d = lab.fresh() / "bad.zip"
        for content in (b"", b"PK\x03\x04 half an archive"):
            d.write_bytes(content)
            o = lab.attempt(t, d, ck.rng.choice(["force", "yes"]), dict(part=0, kind="corrupt"))
            o["dest"] = "foreign" if o["dest"] == "same" else o["dest"]
            e = o.pop("e")
            cases.append(dict(id=f"c.{name}.{len(content)}", p=1, first="foreign", hist=[o], cls=name, e=[e]))
    ck.log("faults replayed", len(cases))
    # crash and interrupt at (a sample of) every C-level step of the attempt
    hot = {"write", "close", "replace", "rename", "open", "unlink", "remove", "flush", "mkstemp", "truncate", "link",
           "copyfileobj", "move", "writestr", "seek", "readinto", "recv_into", "fsync", "stat", "mkdir"}
    for name in (tg if ck.thorough else [one[ck.seed % len(one)], two[0], "AmazonMusicDataManager"]):
        t = tg[name]
        d = lab.fresh() / "x.zip"
        lab.attempt(t, d, "force", NONE, bomb=(None, "count"))
        names = json.loads((lab.root / "names.json").read_text())
        ck.count("crash_points_seen", len(names))
        idx = [k for k, (_, n) in enumerate(names, 1) if n in hot]
        late = list(range(max(1, len(names) - 150), len(names) + 1))
        n = ck.pick(70, 1200)
        pts = ck.rng.sample(idx, min(len(idx), n)) + ck.rng.sample(late, min(len(late), n // 2)) + \
            ck.rng.sample(range(1, len(names) + 1), min(len(names), n // 3))
        for k in sorted(set(pts)):
            kind = ck.rng.choice(["kill", "interrupt"])
            cases.append(lab.history(f"x.{name}.{kind}.{k}", t, "absent",
                                     [dict(consent="force", fault=dict(part=0, kind=kind + "-any"), bomb=(k, kind)),
                                      dict(consent="force", fault=NONE)]))
            ck.count("crash_points_run")
    ck.log("crash points", len(cases))
    together(ck, lab, tg)
    bad = ck.judge("DownloaderTrace", [{k: v for k, v in c.items() if k != "e"} for c in cases])
    for c in cases:
        if c["id"] in bad:
            ck.violation(f"download/{c['cls']}/{c['id'].split('.')[0][0]}", "; ".join(bad[c["id"]])[:500] + f" {c['e']}", c)
    ck.sample(cases[0])
    ck.assumptions = ["a served body announces its length or its end (HTTP/1.1); a shorter body without either is not detectable"]


def main():
    run("C15", body)
