"""C16: fetching the MIND archives."""
import builtins
import json
import os
import resource
import sys
import threading

import irsload
import vlib
from checks.C15 import FOREIGN, Lab, zbytes
from fakenet import Bomb, in_child
from vlib import run

HOST = {"huggingface": "huggingface.co", "azure": "mind201910small.blob.core.windows.net"}
CDN = "cdn-lfs.example.org"


def attempt(ck, lab, c, d, default=False, bomb=None):
    from irspack.dataset import MINDDataManager as M
    rng = ck.rng
    base = {"huggingface": M.HUGGINGFACE_BASE_URL, "azure": M.AZURE_BASE_URL}
    size, source = c["size"], c["source"]
    bodies, plan, stall, urls = {}, {}, None, {}
    redirect = c.get("redirect", False)
    nested = d / "some" / "sub" if c.get("nested") else d
    dest = {s: (M.DEFAULT_DIR / f"MIND{size}_{s}.zip" if default else nested / c.get("names", {}).get(s, f"{s}-archive.zip")) for s in ("train", "dev")}
    if default:
        assert str(M.DEFAULT_DIR).startswith(str(lab.home))
    for so in HOST:
        for sz in ("small", "large"):
            for s in ("train", "dev"):
                body = zbytes({"which": f"{so} {sz} {s}"}, 30000)
                url = base[so].split("://", 1)[1] + f"/MIND{sz}_{s}.zip"
                p = dict(body=body, part=rng.choice([.05, .5, .97]), chunked=rng.random() < .2)
                if (so, sz) == (source, size):
                    bodies[s], urls[url] = body, s
                    f = c["fault"][s]
                    if f.isdigit():
                        p.update(fault="refused", status=int(f))
                    elif f in ("drop", "short", "mute"):
                        p["fault"] = f
                    elif f == "kill":
                        p["fault"] = "stall"
                        stall = p["reached"] = threading.Event()
                if redirect and p.get("fault") != "refused":
                    plan[CDN + f"/blob/{so}{sz}{s}"] = p
                    p = dict(location=f"https://{CDN}/blob/{so}{sz}{s}")
                plan[url] = p
    for s in c["have"]:
        dest[s].parent.mkdir(parents=True, exist_ok=True)
        dest[s].write_bytes(FOREIGN)
    disk = "disk" in c["fault"].values()
    lab.net.reset(plan)
    answer = rng.choice(["y", "Y"]) if c["consent"] == "yes" else rng.choice(["n", "N", "", "no", "q"])

    def go():
        for v in ("HF_TOKEN", "HUGGING_FACE_HUB_TOKEN"):
            os.environ.pop(v, None)
        if c["env1"]:
            os.environ["HF_TOKEN"] = "tok-env1"
        elif c.get("blank"):
            os.environ["HF_TOKEN"] = ""
        if c["env2"]:
            os.environ["HUGGING_FACE_HUB_TOKEN"] = "tok-env2"
        elif c.get("blank"):
            os.environ["HUGGING_FACE_HUB_TOKEN"] = ""
        prompts = []
        for s_, f in c["fault"].items():
            if f == "interrupt":
                interrupt_reads(bodies[s_], rng.choice([0, 1, 4]))

        def ask(*a):
            prompts.append(1)
            return answer
        builtins.input = ask
        kw = dict(size=size, force_download=c["consent"] == "force", download_source=source)
        # what is not given: the small size, the gated mirror, and asking first
        for k_, v_ in (("size", "small"), ("force_download", False), ("download_source", "huggingface")):
            if kw[k_] == v_ and rng.random() < .4:
                kw.pop(k_)
        if c["explicit"]:
            kw["hf_token"] = "tok-explicit"
        elif c.get("blank") and rng.random() < .5:
            kw["hf_token"] = ""
        if not default:
            kw["train_zippath"] = dest["train"] if rng.random() < .5 else str(dest["train"])
            kw["dev_zippath"] = dest["dev"]
        r = dict(outcome="ok", msg="", type="")
        try:
            if disk:
                resource.setrlimit(resource.RLIMIT_FSIZE, (5000, resource.RLIM_INFINITY))
            if bomb:
                sys.setprofile(bomb)
            m = M(**kw)
            sys.setprofile(None)
            m.close()
        except BaseException as e:  # noqa
            sys.setprofile(None)
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            from urllib.error import HTTPError
            r["type"], r["msg"] = type(e).__name__, str(e)[:150]
            low = str(e).lower()
            if isinstance(e, HTTPError):
                r["outcome"] = f"http{e.code}"
            elif isinstance(e, ValueError) and not prompts:
                r["outcome"] = "invalid"
            elif isinstance(e, RuntimeError) and ("hugging" in low or "token" in low) and "gated" in low:
                r["outcome"] = "gated"
            elif isinstance(e, RuntimeError) and "azure" in low:
                r["outcome"] = "storage"
            elif isinstance(e, RuntimeError):
                r["outcome"] = "refused"
            else:
                r["outcome"] = "passed-on"
        r["prompted"] = bool(prompts)
        if bomb is not None and bomb.n is None:
            (lab.root / "names.json").write_text(json.dumps(bomb.names))
        return json.dumps(r)

    vlib._tick()
    s = in_child(go, kill_when=stall)
    o = json.loads(s) if s.startswith("{") else dict(outcome="killed" if s in ("killed", "died") else s, msg="", type="", prompted=c["consent"] != "force")
    state = {}
    for s_, p in dest.items():
        if not p.exists():
            state[s_] = "absent"
        else:
            b = p.read_bytes()
            state[s_] = "kept" if b == FOREIGN else "complete" if b == bodies[s_] else "partial"
    reqs, leak, wrong = [], [], []
    for r in lab.net.seen():
        if r["url"] in urls:
            t = r["auth"]
            reqs.append(dict(split=urls[r["url"]], token={"": "none", "Bearer tok-explicit": "explicit", "Bearer tok-env1": "env1",
                                                          "Bearer tok-env2": "env2"}.get(t, t)))
        elif r["url"].startswith(CDN):
            if r["auth"]:
                leak.append(r["url"])
        else:
            wrong.append(r["url"])
    keep = set(dest.values())
    where = M.DEFAULT_DIR if default else d
    stray = [str(p.relative_to(where)) for p in where.rglob("*") if p.is_file() and p not in keep] if where.exists() else []
    dirs = [p for p in where.rglob("*") if p.is_dir()] if where.exists() else []
    if default:
        for p in where.rglob("*"):
            p.unlink()
    return dict(o, state=state, reqs=reqs, leak=leak, wrong=wrong, stray=stray, dirs=len(dirs))


def interrupt_reads(body, after):
    """Ctrl-C while the given body is being received, after some pieces"""
    import http.client
    real = http.client.HTTPResponse.read

    def read(self, amt=None):
        first = b""
        if not hasattr(self, "_n"):
            first = real(self, 1000)
            self._n = 0 if first == body[:1000] else None
        if self._n is None:       # not the body to interrupt
            return first if amt is not None and first else first + real(self, amt)
        self._n += 1
        if self._n > after or amt is None:
            raise KeyboardInterrupt()
        return first or real(self, min(amt, 1000))
    http.client.HTTPResponse.read = read


def compare(c, want, got, anytime=False):
    bad = []
    missing = [s for s in ("train", "dev") if s not in c["have"]]
    for s in c["have"]:
        if got["state"][s] != "kept":
            bad.append(f"the existing {s} archive is {got['state'][s]}")
    for s in missing:
        if got["state"][s] not in ("absent", "complete"):
            bad.append(f"a partial {s} archive is left")
    if got["leak"]:
        bad.append(f"the token was sent to another host: {got['leak']}")
    if got["wrong"]:
        bad.append(f"wrong archive or source requested: {got['wrong']}")
    tok = {q["token"] for q in want["reqs"]} if want["reqs"] else set()
    for q in got["reqs"]:
        if q["split"] not in missing or q["token"] not in tok:
            bad.append(f"unexpected request {q}, expected token {tok} for {missing}")
    if anytime:
        return bad
    if got["outcome"] != want["outcome"]:
        bad.append(f"outcome {got['outcome']} ({got['type']}: {got['msg']}), expected {want['outcome']}")
    if got["prompted"] != want["prompted"]:
        bad.append(f"prompted={got['prompted']}")
    if want["outcome"] != "killed" and got["stray"]:
        bad.append(f"left behind: {got['stray']}")
    if want["outcome"] in ("refused", "invalid") and got["dirs"]:
        bad.append("a refusal created directories")
    if want["outcome"] == "ok":
        for s in missing:
            if got["state"][s] != "complete":
                bad.append(f"{s} archive is {got['state'][s]}, expected complete")
        if sorted(q["split"] for q in got["reqs"]) != sorted(missing):
            bad.append(f"requests {got['reqs']}")
    for s in missing:
        if c["fault"][s] != "none" and got["state"][s] != "absent":
            bad.append(f"{s} archive is {got['state'][s]} after {c['fault'][s]}")
    if want["outcome"] in ("refused", "invalid") and got["reqs"]:
        bad.append("the network was used")
    return bad


def body(ck):
    os.environ["HOME"] = str(ck.tmp / "home")
    os.environ["TMPDIR"] = str(ck.tmp / "tmpd")
    (ck.tmp / "tmpd").mkdir()
    irsload.load_bare()
    lab = Lab(ck)
    import irspack.dataset  # noqa  (before forking)
    runs = ck.tlc("MindFetchMC").prints
    ck.count("openings_enumerated", len(runs))
    ck.rng.shuffle(runs)
    # all distinct fault/consent shapes first
    if not ck.thorough:
        seen, pick = {}, []
        for r in runs:
            c = r["case"]
            k = (c["consent"], c["source"], tuple(sorted(c["have"])), tuple(sorted(c["fault"].items())))
            k2 = (c["source"], c["explicit"], c["env1"], c["env2"], c["size"])
            if seen.setdefault(k, 0) < 1 or (r["res"]["outcome"] == "ok" and seen.setdefault(k2, 0) < 2):
                seen[k] += 1
                seen[k2] = seen.get(k2, 0) + 1
                pick.append(r)
        runs = pick
    for n, r in enumerate(runs):
        c, want = r["case"], r["res"]
        c = dict(c, redirect=ck.rng.random() < .35, nested=ck.rng.random() < .25, blank=ck.rng.random() < .3)
        if c["have"]:
            c["nested"] = False
        c["names"] = ck.rng.choice([{}, {}, dict(train="MINDlarge_dev.zip", dev="MINDsmall_train.zip"), dict(train="MINDlarge_train.zip", dev="MINDlarge_dev.zip"),
                                    dict(train="MINDsmall_dev.zip", dev="MINDsmall_train.zip"), dict(train="archive", dev="x.part"), dict(train="a b%20.zip", dev="a b.zip")])
        # other refusals are passed on just like 404 and 500
        for s_, f_ in c["fault"].items():
            if f_ in ("404", "500") and ck.rng.random() < .6:
                o_ = ck.rng.choice(["400", "402", "405", "408", "410", "412", "418", "429", "451", "499", "501", "502", "503", "504"])
                c["fault"] = dict(c["fault"], **{s_: o_})
                if want["outcome"] == "http" + f_ and next(q for q in ("train", "dev") if q not in c["have"] and c["fault"][q] not in ("none",)) == s_:
                    want = dict(want, outcome="http" + o_)
        got = attempt(ck, lab, c, lab.fresh(), default=ck.rng.random() < .2)
        ck.traces += 1
        bad = compare(c, want, got)
        if bad:
            ck.violation("mind/" + want["outcome"], "; ".join(bad[:4]) + f" | {c['source']} fault={c['fault']} consent={c['consent']} have={c['have']}", dict(case=c, want=want, got=got))
    ck.log("openings replayed", len(runs))
    proto = dict(have=[], consent="force", source="huggingface", size="small", explicit=True, env1=False, env2=False,
                 fault=dict(train="none", dev="none"))
    # invalid settings: rejected before anything happens
    for ch in (dict(size="tiny"), dict(size="Small"), dict(size=""), dict(source="s3"), dict(source="")):
        c = dict(proto, **ch)
        if c["source"] not in HOST or c["size"] not in ("small", "large"):
            want = dict(outcome="invalid", prompted=False, reqs=[])
            got = attempt_invalid(ck, lab, c)
            if got["outcome"] != "invalid" or got["n"]:
                ck.violation("mind/invalid", f"{ch} was not rejected before any access: {got}", dict(case=c))
    # a full disk
    for so in HOST:
        for s in ("train", "dev"):
            c = dict(proto, source=so, fault=dict(proto["fault"], **{s: "disk"}), have=["dev" if s == "train" else "train"])
            got = attempt(ck, lab, c, lab.fresh())
            bad = compare(c, dict(outcome="passed-on", prompted=False, reqs=[dict(split=s, token="explicit" if so == "huggingface" else "none")]), got)
            ck.traces += 1
            if bad:
                ck.violation("mind/disk", "; ".join(bad), dict(case=c, got=got))
    # killed or interrupted anywhere
    ok = dict(outcome="ok", prompted=False, reqs=[dict(split="train", token="explicit")])
    attempt(ck, lab, proto, lab.fresh(), bomb=Bomb(None, "count"))
    names = json.loads((lab.root / "names.json").read_text())
    ck.count("crash_points_seen", len(names))
    hot = [k for k, (_, n) in enumerate(names, 1) if n in ("write", "close", "replace", "rename", "open", "unlink", "flush", "readinto", "truncate", "stat", "remove")]
    pts = ck.rng.sample(hot, min(len(hot), ck.pick(60, 2000))) + ck.rng.sample(range(1, len(names) + 1), min(len(names), ck.pick(60, 1500)))
    for k in sorted(set(pts)):
        kind = ck.rng.choice(["kill", "interrupt"])
        d = lab.fresh()
        got = attempt(ck, lab, proto, d, bomb=Bomb(k, kind))
        bad = compare(proto, ok, got, anytime=True)
        again = dict(proto, have=[])
        # the next opening fetches what is missing and works
        left = [s for s, v in got["state"].items() if v == "absent"]
        from irspack.dataset import MINDDataManager  # noqa
        got2 = attempt(ck, lab, again, d)
        if got2["outcome"] != "ok" or set(got2["state"].values()) != {"complete"} or sorted(q["split"] for q in got2["reqs"]) != sorted(left):
            bad.append(f"next opening: {got2['outcome']} {got2['state']} requests {got2['reqs']}")
        ck.traces += 1
        ck.count("crash_points_run")
        if bad:
            ck.violation(f"mind/{kind}-any", "; ".join(bad) + f" at {names[k-1]}", dict(point=k, got=got))
    together(ck, lab)
    ck.sample(dict(case=runs[0]["case"], model=runs[0]["res"]))


def together(ck, lab):
    """openings of the same archives at the same time"""
    import together as tog
    from irspack.dataset import MINDDataManager as M
    base = M.HUGGINGFACE_BASE_URL.split("://", 1)[1]
    for p in (1, 3):
        hs = [h["hist"] for h in ck.tlc("DownloaderPair", f"DownloaderPair{p}").prints]
        ck.rng.shuffle(hs)
        for h in hs[:ck.pick(30, 1500)]:
            threads = ck.rng.random() < .5 and not any(s["do"] == "kill" for s in h)
            d = lab.fresh()
            have, miss = ck.rng.choice([("train", "dev"), ("dev", "train")])
            dest = {s: d / f"{s}.zip" for s in ("train", "dev")}
            dest[have].write_bytes(FOREIGN)
            body = zbytes({"which": miss}, 30000)

            def look():
                f = dest[miss]
                if dest[have].read_bytes() != FOREIGN:
                    return "changed elsewhere"
                return "absent" if not f.exists() else "complete" if f.read_bytes() == body else "partial"
            vlib._tick()
            bad = tog.replay(lab.net, [(base + f"/MINDsmall_{miss}.zip", body)],
                             lambda: M(dest["train"], dest["dev"], force_download=True, hf_token="t").close(), look, h, threads, ck.rng)
            stray = [f.name for f in d.iterdir() if f not in dest.values()]
            if stray and not any(s["do"] == "kill" for s in h):
                bad.append(f"left behind: {stray}")
            ck.traces += 1
            ck.count("concurrent_openings_replayed")
            if bad:
                ck.violation("mind/together", "; ".join(bad[:3]), dict(hist=h, threads=threads))


def attempt_invalid(ck, lab, c):
    from irspack.dataset import MINDDataManager as M
    lab.net.reset({})
    d = lab.fresh()

    def go():
        builtins.input = lambda *a: "y"
        try:
            M(d / "a.zip", d / "b.zip", size=c["size"], force_download=True, download_source=c["source"])
        except ValueError:
            return "invalid"
        except BaseException as e:  # noqa
            return type(e).__name__
        return "ok"
    o = in_child(go)
    return dict(outcome=o, n=len(lab.net.seen()) + len(list(d.iterdir())))


def main():
    run("C16", body)
