"""A stand-in for the internet: every HTTP(S) connection of this process (and of
its forked children) goes to a loopback server that serves a script and records
the requests.  TLS is left out; HTTP parsing, redirects, content lengths and
truncation are the real ones."""
import http.client
import os
import socket
import struct
import sys
import threading

CHUNK = 700


class Net:
    def __init__(self):
        self.plan = {}       # path (with host) -> dict(status, body, fault, location)
        self.requests = []   # dict(url, auth)
        self.lock = threading.Lock()
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        threading.Thread(target=self._serve, daemon=True).start()
        self._patch()

    def _patch(self):
        port = self.port

        def connect(conn):
            sys.audit("http.client.connect", conn, conn.host, conn.port)
            conn.sock = socket.create_connection(("127.0.0.1", port))

        http.client.HTTPConnection.connect = connect
        http.client.HTTPSConnection.connect = connect

    def reset(self, plan):
        with self.lock:
            self.plan, self.requests = dict(plan), []

    def seen(self):
        with self.lock:
            return list(self.requests)

    def _serve(self):
        while True:
            c, _ = self.sock.accept()
            threading.Thread(target=self._one, args=(c,), daemon=True).start()

    def _one(self, c):
        try:
            buf = b""
            while b"\r\n\r\n" not in buf:
                d = c.recv(65536)
                if not d:
                    return
                buf += d
            head = buf.split(b"\r\n\r\n")[0].decode("latin-1").split("\r\n")
            path = head[0].split(" ")[1]
            hd = {k.strip().lower(): v.strip() for k, v in (l.split(":", 1) for l in head[1:])}
            url = hd.get("host", "").split(":")[0] + path
            with self.lock:
                self.requests.append(dict(url=url, auth=hd.get("authorization", ""), head=head[1:]))
                p = self.plan.get(url)
            if p is None:
                c.sendall(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
                return
            fault = p.get("fault", "none")
            if fault == "refused":
                c.sendall(b"HTTP/1.1 %d Refused\r\nContent-Length: 2\r\nConnection: close\r\n\r\nno" % p.get("status", 404))
                return
            if "location" in p:
                c.sendall(("HTTP/1.1 302 Found\r\nLocation: %s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n" % p["location"]).encode())
                return
            if fault == "mute":
                self._rst(c)
                return
            body = p["body"]
            chunked = p.get("chunked", False)
            h = b"HTTP/1.1 200 OK\r\nConnection: close\r\n"
            h += b"Transfer-Encoding: chunked\r\n\r\n" if chunked else b"Content-Length: %d\r\n\r\n" % len(body)
            c.sendall(h)
            n = len(body) if fault == "none" else int(len(body) * p.get("part", .5))
            gate = p.get("gate")
            for k in range(0, n, CHUNK):
                if gate is not None and k >= n // 2:      # wait to be told how to go on
                    tok = dict(url=url, go=threading.Event(), do="go")
                    gate.put(tok)
                    tok["go"].wait(60)
                    gate = None
                    if tok["do"] != "go":
                        self._rst(c)
                        return
                piece = body[k:min(k + CHUNK, n)]
                c.sendall(b"%x\r\n%s\r\n" % (len(piece), piece) if chunked else piece)
            if fault == "none" and chunked:
                c.sendall(b"0\r\n\r\n")
            if fault == "drop":
                self._rst(c)
            elif fault == "stall":          # the peer will be killed
                p["reached"].set()
                while c.recv(1):
                    pass
        except OSError:
            pass
        finally:
            try:
                c.shutdown(socket.SHUT_WR) if c.fileno() >= 0 else None
                c.close()
            except OSError:
                pass

    @staticmethod
    def _rst(c):
        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        c.close()


def in_child(fn, kill_when=None, timeout=60):
    """Run fn() in a forked child; it returns a short string. If kill_when (an
    Event) is given the child is killed with SIGKILL once it is set.
    -> string, or "killed" / "died" """
    import select
    import signal
    import time
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            s = fn()
        except BaseException as e:  # noqa
            s = "raised:" + type(e).__name__
        os.write(w, s.encode())
        os._exit(0)
    os.close(w)
    t0, killed = time.time(), False
    while True:
        if kill_when is not None and not killed and kill_when.is_set():
            time.sleep(.002)
            os.kill(pid, signal.SIGKILL)
            killed = True
        if select.select([r], [], [], .005)[0]:
            s = os.read(r, 65536).decode()
            break
        if time.time() - t0 > timeout:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return "hung"
    os.close(r)
    os.waitpid(pid, 0)
    return s if s else ("killed" if killed else "died")


class Bomb:
    """Counts the C calls made by the code while active and, at the n-th, either
    ends the process at once ("kill") or raises KeyboardInterrupt ("interrupt")."""

    def __init__(self, n, kind):
        self.n, self.kind, self.k, self.names = n, kind, 0, []

    def __call__(self, frame, event, arg):
        if event not in ("c_call", "c_return"):
            return
        self.k += 1
        if self.n is None:
            self.names.append((event, getattr(arg, "__name__", "?")))
        elif self.k == self.n:
            sys.setprofile(None)
            if self.kind == "kill":
                os._exit(9)
            raise KeyboardInterrupt()
