"""Shared machinery: the TLC runner, the evidence/violation bookkeeping, and the
two ways a specification is bound to the code:

  expect(module, cases)  TLC runs the model on every case and prints what the
                         real code must do; the caller compares.
  judge(module, cases)   every case carries what the real code did; TLC decides
                         whether the model allows it and names failing clauses.
"""
from __future__ import annotations

import argparse
import json
import math
import mmap
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

import random

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
EVID = VERIF / "evidence"
MAX_PRINTED = 5
OUT = None


class MachineryError(RuntimeError):
    """The checker itself failed (never a verdict about the code)."""


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out or (
            "The number of states generated:" in out and "Error:" not in out)
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                self.prints.append(json.loads(json.loads(line)[2:]))

    @property
    def error(self):
        i = self.out.find("Error:")
        return self.out[i:i + 3000] if i >= 0 else self.out[-3000:]


def jenc(o):
    """JSON encoding for TLC: no nulls, no floats, 32-bit ints only."""
    if isinstance(o, bool) or isinstance(o, str):
        return o
    if isinstance(o, dict):
        return {str(k): jenc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jenc(v) for v in o]
    if o is None:
        raise MachineryError("null in a TLC case")
    if isinstance(o, float):
        raise MachineryError(f"float {o} in a TLC case")
    i = int(o)
    if not -2**31 < i < 2**31:
        raise MachineryError(f"integer {i} out of TLC's range")
    return i


class Check:
    def __init__(self, pid, level="model_checking"):
        ap = argparse.ArgumentParser()
        ap.add_argument("id")
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        a = ap.parse_args()
        self.pid, self.level = pid, level
        self.tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known_hits = {}
        self._vkeys = set()
        self.tmp = Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))
        self.known = []
        kf = VERIF / "known_findings.jsonl"
        if kf.exists():
            for line in kf.read_text().splitlines():
                if line.strip():
                    e = json.loads(line)
                    if e.get("property") == pid and e.get("status") == "known":
                        self.known.append(e)
        EVID.mkdir(exist_ok=True)
        for p in (EVID / "replays").glob(f"{pid}-*.json"):
            p.unlink()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True, file=OUT)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=800, extra=(), must_pass=True):
        md = self.tmp / f"md{time.time_ns()}"
        e = dict(os.environ)
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = e.get("JAVA_TOOL_OPTIONS", "") + f" -Djava.io.tmpdir={self.tmp} -Xss64m"
        cmd = ["timeout", str(timeout), "tlc", "-config", f"{cfg or module}.cfg", "-workers",
               str(workers), "-noGenerateSpecTE", "-metadir", str(md), *extra, f"{module}.tla"]
        _tick(True)
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True)
        _tick()
        shutil.rmtree(md, ignore_errors=True)
        r = TLCResult(p.stdout + p.stderr, p.returncode)
        self.states += r.distinct
        self.transitions += r.generated
        if must_pass and not r.ok:
            raise MachineryError(f"TLC failed on {module} ({cfg or module}.cfg): {r.error}")
        return r

    def _write(self, cases):
        f = self.tmp / f"cases{time.time_ns()}.ndjson"
        with open(f, "w") as o:
            for c in cases:
                o.write(json.dumps(jenc(c)) + "\n")
        return f

    def expect(self, module, cases, cfg=None, env=None, timeout=800, workers=8):
        """-> {id: model's answer}; every case must be answered exactly once."""
        if not cases:
            return {}
        f = self._write(cases)
        r = self.tlc(module, cfg, env=dict(env or {}, CASES=str(f)), timeout=timeout, workers=workers)
        out = {p["id"]: p for p in r.prints}
        miss = [c["id"] for c in cases if c["id"] not in out]
        if miss:
            raise MachineryError(f"{module}: no model answer for {miss[:5]} ({len(miss)} cases)")
        f.unlink()
        return out

    def judge(self, module, cases, cfg=None, env=None, timeout=800, workers=8):
        """-> {id: [failing clauses]} for the cases the model does not allow."""
        if not cases:
            return {}
        f = self._write(cases)
        r = self.tlc(module, cfg, env=dict(env or {}, CASES=str(f)), timeout=timeout,
                     workers=workers, must_pass=False)
        if not r.ok:
            if len(cases) == 1:
                if "evaluat" in r.out or "Attempted" in r.out or "The error occurred" in r.out:
                    return {cases[0]["id"]: ["unexplainable: " + r.error[:400]]}
                raise MachineryError(f"TLC failed on {module}: {r.error}")
            bad = {}
            mid = len(cases) // 2
            bad.update(self.judge(module, cases[:mid], cfg, env, timeout, workers))
            if len(bad) < 20:
                bad.update(self.judge(module, cases[mid:], cfg, env, timeout, workers))
            return bad
        f.unlink()
        verdict = {p["id"]: p["bad"] for p in r.prints}
        miss = [c["id"] for c in cases if c["id"] not in verdict]
        if miss:
            raise MachineryError(f"{module}: no verdict for {miss[:5]} ({len(miss)} cases)")
        self.traces += len(cases)
        return {i: b for i, b in verdict.items() if b}

    # ------------------------------------------------------------ verdicts
    def violation(self, key, what, data=None):
        """Report that the code broke the property. `key` identifies the kind of
        failure (and is what a known finding is matched on)."""
        for e in self.known:
            if re.fullmatch(e["key"], key):
                self.known_hits.setdefault(e["key"], e["what"])
                return
        if (key, str(what)[:80]) in self._vkeys or len(self.violations) >= 50:
            self.violations.append(None) if len(self.violations) < 50 else None
            return
        self._vkeys.add((key, str(what)[:80]))
        d = EVID / "replays"
        d.mkdir(parents=True, exist_ok=True)
        n = sum(1 for v in self.violations if v) + 1
        path = d / f"{self.pid}-{n}.json"
        path.write_text(json.dumps({"property": self.pid, "key": key, "what": str(what),
                                    "seed": self.seed, "tier": self.tier,
                                    "data": data}, indent=1, default=str))
        self.violations.append({"key": key, "what": str(what), "replay": str(path)})
        if n <= MAX_PRINTED:
            print(f"VIOLATION property={self.pid} replay={path}", file=OUT)
            print(f"  {key}: {str(what)[:600]}", flush=True, file=OUT)

    @property
    def nviol(self):
        return sum(1 for v in self.violations if v)

    def finish(self):
        vs = [v for v in self.violations if v]
        for k, w in self.known_hits.items():
            print(f"KNOWN-FINDING: property={self.pid} {w}", file=OUT)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"])
        cov.update(self.counts)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(vs))
        (EVID / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str))
        shutil.rmtree(self.tmp, ignore_errors=True)
        print(f"[{self.pid}] states={self.states} replayed={self.traces} "
              f"violations={len(vs)} {self.counts} wall={time.time()-self.t0:.1f}s", flush=True, file=OUT)
        return 1 if vs else 0


# The code under test runs in a child process: a native crash or a hang there is
# a verdict about the code, not a failure of the checker.
_beat = mmap.mmap(-1, 16)
HANG_S = float(os.environ.get("VERIF_HANG_S", "300"))


def _tick(busy=False):
    """busy: the checker itself (TLC, the compiler) is at work, not the code."""
    _beat[:16] = struct.pack("dd", time.time(), 1.0 if busy else 0.0)


def _child(ck, main):
    rc = 2
    global OUT
    OUT = sys.stdout
    warnings.simplefilter("ignore")
    sys.stdout = open(os.devnull, "w")      # progress bars of the code under test
    try:
        main(ck)
        rc = ck.finish()
    except MachineryError as e:
        # a verdict already reached against the code stands
        print("MACHINERY-ERROR", e, file=sys.stderr)
        rc = ck.finish() if ck.nviol else 2
    except BaseException as e:
        traceback.print_exc()
        # an exception out of the code under test on a valid input, or a result of it
        # that does not even have the agreed form
        src = os.environ.get("IRSPACK_REPO", "/repo") + "/src/"
        if isinstance(e, Exception) and (any(
                f.filename.startswith(src) for f in traceback.extract_tb(e.__traceback__))
                or not isinstance(e, (OSError, MemoryError, subprocess.SubprocessError)) and type(e).__name__ != "BuildError"):
            ck.violation("unexpected-error", f"{type(e).__name__}: {e}",
                         traceback.format_exc().splitlines()[-12:])
        rc = ck.finish() if ck.nviol else 2
    OUT.flush()
    sys.stderr.flush()
    os._exit(rc)


def run(pid, main, level="model_checking"):
    ck = Check(pid, level)
    _tick(True)
    sys.stdout.flush()
    pid_ = os.fork()
    if pid_ == 0:
        os.setpgid(0, 0)
        _child(ck, main)
    rc, hung = None, False
    while rc is None:
        time.sleep(0.05)
        p, st = os.waitpid(pid_, os.WNOHANG)
        if p:
            rc = os.waitstatus_to_exitcode(st)
            break
        t, busy = struct.unpack("dd", _beat[:16])
        if not busy and time.time() - t > HANG_S * (4 if ck.thorough else 1):
            hung = True
            os.killpg(pid_, signal.SIGKILL)
            os.waitpid(pid_, 0)
            break
    if hung:
        ck.violation("no-termination", f"a call into the code under test did not return within {HANG_S} s")
        rc = ck.finish()
    elif rc < 0:
        if -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
            ck.violation("native-crash", f"the code under test crashed the process (signal {-rc})")
            rc = ck.finish()
        else:
            print(f"MACHINERY-ERROR checker ended by signal {-rc}", file=sys.stderr)
            rc = 2
    shutil.rmtree(ck.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def call(fn, *a, **k):
    """-> ("ok", value) or ("err", type name, message)"""
    _tick()
    try:
        return ("ok", fn(*a, **k))
    except Exception as e:  # noqa
        return ("err", type(e).__name__, str(e)[:300])


def close(a, b, tol=1e-9):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    try:
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    except Exception:
        return False
