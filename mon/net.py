"""A GitHub of one's own: an HTTPS proxy on the loopback which answers for github.com, records every
request, decides the order in which answers complete, and fails on demand."""
import os, re, socket, ssl, struct, subprocess, threading, time, urllib.parse
from . import common

HOSTS = ("github.com", "objects.githubusercontent.com")


def certificates(where):
    """Two self-signed certificates: one the client will trust, and one it will not."""
    for name in ("good", "bad"):
        r = subprocess.run(
            ["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-days", "30", "-subj", "/CN=github.com",
             "-addext", "subjectAltName=DNS:github.com,DNS:objects.githubusercontent.com",
             "-keyout", os.path.join(where, name + ".key"), "-out", os.path.join(where, name + ".pem")],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=common.clean_env({"HOME": where}))
        if r.returncode != 0:
            raise common.Inconclusive("openssl failed: " + r.stdout[-500:])


class Hub:
    def __init__(self, where, rng):
        self.where, self.r = where, rng
        self.contexts = {}
        for name in ("good", "bad"):
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            c.load_cert_chain(os.path.join(where, name + ".pem"), os.path.join(where, name + ".key"))
            self.contexts[name] = c
        self.lock = threading.Condition()
        self.artefacts = {}
        self.reset()
        self.listener = socket.socket()
        self.listener.bind(("127.0.0.1", 0))
        self.listener.listen(64)
        self.port = self.listener.getsockname()[1]
        threading.Thread(target=self._serve, daemon=True).start()

    def reset(self, faults=None, order=(), patience=0.4):
        """Before a run: what goes wrong with which path, and in which order answers are given."""
        with self.lock:
            self.faults = dict(faults or {})
            self.order = list(order)
            self.deadline = time.time() + 60
            self.patience = patience
            self.requests = []
            self.completed = []
            self.odd = []
            self.arrived = set()

    def env(self, home):
        return common.clean_env({"HTTPS_PROXY": "http://127.0.0.1:%d" % self.port, "SSL_CERT_FILE": os.path.join(self.where, "good.pem"),
                                 "SSL_CERT_DIR": "/nonexistent", "HOME": home})

    def _serve(self):
        while True:
            try:
                s, _ = self.listener.accept()
            except OSError:
                return
            threading.Thread(target=self._talk, args=(s,), daemon=True).start()

    def _talk(self, s):
        try:
            s.settimeout(30)
            self._proxy(s)
        except (OSError, ValueError):
            pass
        finally:
            try:
                s.close()
            except OSError:
                pass

    @staticmethod
    def _head(s):
        data = b""
        while b"\r\n\r\n" not in data:
            part = s.recv(4096)
            if not part:
                return None
            data += part
        return data.split(b"\r\n\r\n")[0].decode("latin-1")

    def _proxy(self, s):
        head = self._head(s)
        if head is None:
            return
        m = re.match(r"CONNECT ([^ :]+):(\d+) HTTP/1", head)
        if not m or m.group(1) not in HOSTS or m.group(2) != "443":
            with self.lock:
                self.odd.append(head.split("\r\n")[0])
            s.sendall(b"HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\n\r\n")
            return
        # faults below HTTP hit whatever connection comes first
        below = self.faults.get("connect")
        if below == "refuse":
            s.sendall(b"HTTP/1.1 502 Bad Gateway\r\nContent-Length: 0\r\n\r\n")
            return
        s.sendall(b"HTTP/1.1 200 Connection established\r\n\r\n")
        if below == "hangup":
            return
        t = self.contexts["bad" if below == "certificate" else "good"].wrap_socket(s, server_side=True)
        while True:
            head = self._head(t)
            if head is None:
                return
            line = head.split("\r\n")[0]
            m = re.match(r"([A-Z]+) (\S+) HTTP/1", line)
            path = urllib.parse.unquote(m.group(2).split("?")[0]) if m else line
            host = re.search(r"(?im)^host: *([^\r\n]+)", head)
            if host and host.group(1) == "objects.githubusercontent.com" and path.startswith("/moved/"):
                self._answer(t, path[len("/moved"):], "length")
                continue
            with self.lock:
                self.requests.append(path)
                self.arrived.add(path)
                self.lock.notify_all()
            self._wait(path)
            fault = self.faults.get(path)
            if self._fail(t, path, fault):
                with self.lock:
                    self.completed.append(path)
                    self.lock.notify_all()
                return
            style = self.styles.get(path, "length") if hasattr(self, "styles") else "length"
            ended = self._answer(t, path, style)
            with self.lock:
                self.completed.append(path)
                self.lock.notify_all()
            if ended:
                return

    def _wait(self, path):
        """Holds an answer until all expected requests are there and it is its turn."""
        if path not in self.order:
            return
        end = time.time() + self.patience
        with self.lock:
            while not set(self.order) <= self.arrived and time.time() < end:
                self.lock.wait(0.05)
            before = self.order[:self.order.index(path)]
            while not all(p in self.completed for p in before) and time.time() < end:
                self.lock.wait(0.05)

    def _answer(self, t, path, style):
        body = self.artefacts.get(path)
        if body is None:
            t.sendall(b"HTTP/1.1 404 Not Found\r\nContent-Length: 9\r\n\r\nNot Found")
            return False
        if style == "redirect":
            t.sendall(b"HTTP/1.1 302 Found\r\nLocation: https://objects.githubusercontent.com/moved%s\r\nContent-Length: 0\r\n\r\n"
                      % urllib.parse.quote(path).encode())
            return False
        if style == "chunked":
            t.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
            for i in range(0, len(body), 7001):
                c = body[i:i + 7001]
                t.sendall(b"%x\r\n%s\r\n" % (len(c), c))
            t.sendall(b"0\r\n\r\n")
            return False
        if style == "slow":
            t.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body))
            step = max(1, len(body) // 3)
            for i in range(0, len(body), step):
                t.sendall(body[i:i + step])
                time.sleep(0.02)
            return False
        if style == "close":
            t.sendall(b"HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n" + body)
            try:
                t.unwrap()
            except (OSError, ValueError):
                pass
            return True
        t.sendall(b"HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\nContent-Length: %d\r\n\r\n" % len(body) + body)
        return False

    def _fail(self, t, path, fault):
        if fault is None:
            return False
        kind, arg = fault
        body = self.artefacts.get(path, b"")
        if kind == "status":
            # the body may look like what was asked for
            t.sendall(b"HTTP/1.1 %d Whatever\r\nContent-Length: %d\r\n\r\n" % (arg, len(body)) + body)
        elif kind == "cut":
            t.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body) + body[:arg])
        elif kind == "cut gently":
            t.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body) + body[:arg])
            try:
                t.unwrap()
            except (OSError, ValueError):
                pass
        elif kind == "reset":
            t.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body) + body[:arg])
            t.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        elif kind == "cut chunk":
            t.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
            if arg:
                t.sendall(b"%x\r\n%s\r\n" % (arg, body[:arg]))
        elif kind == "cut head":
            t.sendall(b"HTTP/1.1 200 OK\r\nContent-Le"[:arg])
        elif kind == "loop":
            t.sendall(b"HTTP/1.1 302 Found\r\nLocation: https://github.com%s\r\nContent-Length: 0\r\n\r\n" % urllib.parse.quote(path).encode())
        elif kind == "rubbish":
            t.sendall(b"\x00\x01not http at all\r\n\r\n")
        try:
            t.close()
        except OSError:
            pass
        return True


def fault(r, size):
    """Something that goes wrong with one download; always before its end."""
    return r.choice([
        ("status", r.choice([400, 401, 403, 404, 410, 429, 500, 502, 503, 300, 304, 305])),
        ("cut", r.randrange(size)),
        ("cut gently", r.randrange(size)),
        ("reset", r.randrange(size)),
        ("cut chunk", r.randrange(size)),
        ("cut head", r.randrange(24)),
        ("loop", 0),
        ("rubbish", 0),
    ])


def patch(binary, place, text):
    needle = b"@@%s@@" % place
    at = binary.index(needle)
    end = binary.index(b"@@END@@@", at) + 8
    if len(text) > end - at:
        raise common.Inconclusive("too long for the probe")
    return binary[:at] + text + b" " * (end - at - len(text)) + binary[end:]


def padded(binary, n):
    """The same module with a custom section of n bytes."""
    def leb(v):
        out = b""
        while True:
            b, v = v & 127, v >> 7
            if v:
                out += bytes([b | 128])
            else:
                return out + bytes([b])
    payload = b"\x03pad" + b"p" * n
    return binary + b"\x00" + leb(len(payload)) + payload


def toml_string(s):
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif ord(c) < 32 or ord(c) == 127:
            out += "\\u%04X" % ord(c)
        else:
            out += c
    return out + '"'
