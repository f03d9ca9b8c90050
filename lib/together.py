"""Several openings of one dataset at the same time, stepped through a behaviour
of DownloaderPair.tla: the scripted network stops every transfer half way until
the behaviour lets it go on, drops it, or has its process killed."""
import os
import queue
import select
import signal
import threading
import time


class Host:
    """a forked process in which openings run as threads"""

    def __init__(self, opening):
        self.r, w = os.pipe()
        r2, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            for fd in map(int, os.listdir("/proc/self/fd")):   # above all the server's side of the connections
                if fd > 2 and fd not in (r2, w):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            try:
                self._serve(opening, r2, w)
            finally:
                os._exit(0)
        os.close(w)
        os.close(r2)
        self.buf, self.dead = b"", False

    @staticmethod
    def _serve(opening, r, w):
        def one(k):
            try:
                opening()
                o = "ok"
            except BaseException as e:  # noqa
                o = "error:" + f"{type(e).__name__} {e}"[:120].replace("\n", " ")
            os.write(w, f"{k} {o}\n".encode())
        while True:
            d = os.read(r, 1)
            if not d:
                return
            threading.Thread(target=one, args=(d.decode(),), daemon=True).start()

    def start(self, k):
        os.write(self.w, str(k).encode())

    def poll(self):
        """-> finished openings {k: outcome}"""
        out = {}
        while not self.dead and select.select([self.r], [], [], 0)[0]:
            d = os.read(self.r, 65536)
            if not d:
                self.dead = True
                break
            self.buf += d
        *lines, self.buf = self.buf.split(b"\n")
        for l in lines:
            k, o = l.decode().split(" ", 1)
            out[int(k)] = o
        return out

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except (ProcessLookupError, ChildProcessError):
            pass

    def close(self):
        self.kill()
        os.close(self.r)
        os.close(self.w)


def replay(net, parts, opening, look, hist, threads, rng):
    """-> list of disagreements.  parts: [(url, body)], look() -> state of the destination"""
    gate = queue.Queue()
    net.reset({u: dict(body=b, gate=gate, chunked=rng.random() < .2) for u, b in parts})
    shared = Host(opening) if threads else None
    hosts, tok, ended, bad = {}, {}, {}, []
    try:
        for n, st in enumerate(hist, 1):
            w, do = st["who"], st["do"]
            if do == "start":
                hosts[w] = shared or Host(opening)
                hosts[w].start(w)
            elif do == "kill":
                hosts[w].kill()
                ended[w] = "killed"
                tok.pop(w)["go"].set()
            else:
                t = tok.pop(w)
                t["do"] = do
                t["go"].set()
            t0 = time.time()
            while w not in ended and w not in tok:
                try:
                    tok[w] = gate.get(timeout=.004)
                    time.sleep(.004)        # let the receiver take in what was sent
                except queue.Empty:
                    ended.update(hosts[w].poll())
                if time.time() - t0 > 40:
                    ended[w] = "hung"
            out = "mid" if w in tok else ended[w].split(":")[0]
            d = look()
            what = f"step {n} ({do} of opening {w}, {'threads' if threads else 'processes'})"
            if d != st["dest"]:
                bad.append(f"{what}: the destination is {d}, expected {st['dest']}")
            if out != st["out"]:
                bad.append(f"{what}: {ended.get(w, out)}, expected {st['out']}")
                break
    finally:
        for t in tok.values():
            t["do"] = "drop"
            t["go"].set()
        for h in {id(h): h for h in list(hosts.values()) + ([shared] if shared else [])}.values():
            h.close()
    return bad
