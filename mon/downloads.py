"""Downloads of the real program (C16, C17): histories of configurations, faults and crashes, with a GitHub of
one's own (mon/net.py) as the recording and misbehaving server."""
import json, multiprocessing, os, random, re, shutil, signal, subprocess, time, traceback
from . import common, net
try:
    import tomllib
except ImportError:  # pragma: no cover
    tomllib = None

RULE_16 = ("histories of configuration changes and builds (and language-server sessions) of one project, with HTTP faults, storage faults, "
           "injected system-call errors and kills in between, answers completing in a chosen order; non-trivial: distinct steps in which a plugin was configured")
RULE_17 = ("one add in a project with a random configuration, under well-formed and malformed schemas, existing names, HTTP faults, storage faults, "
           "injected system-call errors and kills; non-trivial: distinct (configuration, schema, fault)")
PLAN = {"C16": (14, 45, 1500, 750, RULE_16), "C17": (80, 35, 6000, 700, RULE_17)}
SHARDS = 8
CALLS = ["openat", "write", "fsync", "rename", "mkdir", "close", "fchmod", "unlink", "statx"]
ERRORS = {"openat": ["EACCES", "EMFILE", "ENOSPC", "EIO", "EROFS"], "write": ["ENOSPC", "EIO", "EDQUOT"], "fsync": ["EIO", "ENOSPC"],
          "rename": ["EIO", "EACCES", "ENOSPC"], "mkdir": ["EACCES", "ENOSPC"], "fchmod": ["EPERM"], "unlink": ["EIO"]}


class Bad(Exception):
    """The property is broken."""


def ensure(ok, message, *args):
    if not ok:
        raise Bad(message % args if args else message)


class Box:
    """What one case has to do with."""

    def __init__(self, work, wasm, ev):
        self.work, self.ev = work, ev
        self.probe = open(os.path.join(wasm, "probe.wasm"), "rb").read()
        net.certificates(work)
        self.hub = net.Hub(work, None)
        self.home = os.path.join(work, "home")
        os.makedirs(self.home, exist_ok=True)
        self.tracing = self.can_trace()
        self.places = {}
        self.slow = []

    def can_trace(self):
        try:
            r = subprocess.run(["strace", "-qq", "-f", "-o", "/dev/null", "-e", "trace=rename", "/bin/true"],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=common.clean_env())
            return r.returncode == 0
        except OSError:
            return False

    def brack(self, args, cwd, storage=None, stdin=None):
        """Runs the program; gives its status, what it printed, and whether the storage fault was seen to hit."""
        cmd = [common.BRACK] + args
        log = os.path.join(self.work, "trace")
        if os.path.exists(log):
            os.unlink(log)
        if storage and storage[0] == "limit":
            cmd = ["env", "--ignore-signal=SIGXFSZ", "prlimit", "--fsize=%d" % storage[1]] + cmd
        elif storage and storage[0] in ("error", "kill", "record"):
            cmd = ["strace", "-f", "-qq", "-y", "-o", log, "-e", "trace=" + ",".join(CALLS)] + self.injection(storage) + cmd
        began = time.time()
        p = subprocess.Popen(cmd, cwd=cwd, env=self.hub.env(self.home), stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        stuck = False
        limit = 200
        if storage and storage[0] in ("error", "timer"):
            limit = 15 if storage[0] == "error" else storage[1]
        try:
            out, err = p.communicate(stdin, timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            if storage and storage[0] == "timer":
                hit = "killed after %.3f s" % storage[1]
                return -9, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), hit
            if not storage or storage[0] != "error":
                raise common.Inconclusive("brack %s took more than 200 s" % args)
            # the error hit what wakes threads up, not storage: an end at an odd point
            stuck = True
            self.ev.count("runs stuck by an injected error, and killed")
        hit = None
        if os.path.exists(log):
            text = open(log, errors="replace").read()
            m = re.search(r"^.*INJECTED.*$", text, re.M)
            hit = m.group(0) if m else None
            self.trace = text
        code = p.returncode
        self.slow.append((time.time() - began, str(args), str(storage), str(self.hub.faults)))
        if stuck or storage and storage[0] == "kill" and code in (-9, -15, 137, 143):
            code = -9
        return code, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), hit

    @staticmethod
    def injection(storage):
        if storage[0] == "error":
            return ["-e", "inject=%s:error=%s:when=%d%s" % (storage[1], storage[2], storage[3], storage[4])]
        if storage[0] == "kill":
            # KILL takes effect before the call, TERM after it
            return ["-e", "inject=%s:signal=%s:when=%d" % (storage[1], storage[3], storage[2])]
        return []

    def learn(self, what, args, cwd):
        """Which system calls, by number, touch the project in a run without faults."""
        if not self.tracing or what in self.places:
            return
        self.brack(args, cwd, ("record",))
        seen, places = {}, []
        for l in self.trace.split("\n"):
            m = re.match(r"\d+ +([a-z0-9]+)\(", l)
            if not m:
                continue
            seen[m.group(1)] = seen.get(m.group(1), 0) + 1
            if cwd in l and not re.search(r'"/(usr|lib|etc|proc|sys)', l) and (
                    "O_RDONLY" not in l or "Brack.toml" in l or "plugins" in l):
                places.append((m.group(1), seen[m.group(1)]))
        self.places[what] = [p for p in places if p[0] in CALLS]

    def storage(self, r, what, size, small=False):
        """Something that goes wrong with storing."""
        if self.places.get(what) and r.random() < 0.65:
            call, n = r.choice(self.places[what])
            if call != "write":
                n = max(1, n + r.choice([0, 0, 0, 0, -1, 1]))
            if r.random() < 0.4 or call not in ERRORS:
                return ("kill", call, n, r.choice(["KILL", "TERM"]))
            return ("error", call, r.choice(ERRORS[call]), n, r.choice(["", "", "+"]))
        return ("limit", r.randrange(size) if r.random() < 0.6 else r.randrange(min(size, 400)))


def tree(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


# ---------------------------------------------------------------------------------------------- C17

ODD = ["x", "my book", "é", "日本", "\"q\"", "a\\b", "a\nb", "'", "#no comment", "[x]", "\t", "😀", "a = 1", ""]


def configuration(r):
    """The text of a Brack.toml, and what it says."""
    doc = {"name": r.choice(ODD), "version": r.choice(["0.1.0", "v2", ""]), "backend": r.choice(["html", "tex", "md", ""]),
           "authors": [r.choice(ODD) for _ in range(r.choice([0, 1, 1, 3]))]}
    plugins = {}
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        e = {"schema": "github", "owner": r.choice(["alice", "bob"]), "repo": r.choice(["r1", "r2.x"]), "version": r.choice(["v1", "1.0.0"])}
        for h in ("document_hook", "stmt_hook", "expr_hook", "text_hook"):
            if r.random() < 0.3:
                e[h] = r.random() < 0.6
        plugins[r.choice(["p", "std", "日本", "a.b", "x y", "q\"", "t-1", "r"])] = e
    lines = []
    if r.random() < 0.3:
        lines.append("# a comment")
    lines.append("[document]")
    keys = list(doc)
    r.shuffle(keys)
    for k in keys:
        v = doc[k]
        lines.append("%s = %s" % (k, "[%s]" % ", ".join(net.toml_string(a) for a in v) if isinstance(v, list) else net.toml_string(v)))
    header = r.random() < 0.5
    if header:
        lines.append("[plugins]")
    for n, e in plugins.items():
        bare = re.fullmatch(r"[A-Za-z0-9_-]+", n) and r.random() < 0.5
        keys = list(e)
        r.shuffle(keys)
        value = lambda v: ("true" if v else "false") if isinstance(v, bool) else net.toml_string(v)
        if header and r.random() < 0.3 and not any(l.startswith("[plugins.") for l in lines):
            lines.append("%s = { %s }" % (n if bare else net.toml_string(n), ", ".join("%s = %s" % (k, value(e[k])) for k in keys)))
            continue
        lines.append("[plugins.%s]" % (n if bare else net.toml_string(n)))
        for k in keys:
            lines.append("%s = %s" % (k, value(e[k])))
    want = {"document": doc}
    if plugins or header:
        want["plugins"] = plugins
    return r.choice(["\n", "\n", "\r\n"]).join(lines) + "\n", want


def c17(box, r):
    root = os.path.join(box.work, "add")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    text, want = configuration(r)
    exists, readable = True, True
    k = r.random()
    if k < 0.03:
        exists = False
    elif k < 0.08:
        readable = False
        text = r.choice([text[:len(text) // 2] + "[", "", "[document]\nname = 1\n", text + "[document]\n", "[document]\nname = \"x\"\n"])
        try:
            d = tomllib.loads(text).get("document", {})
            readable = all(k in d for k in ("name", "version", "backend", "authors"))
        except (tomllib.TOMLDecodeError, ValueError):
            pass
        if readable:
            readable, text = False, "[[["
    plugins = want.get("plugins", {})
    for n in range(r.choice([0, 0, 1, 3])):
        os.makedirs(os.path.join(root, r.choice(["plugins", "docs", "out"])), exist_ok=True)
    for d in ("plugins", "docs", "out"):
        if os.path.isdir(os.path.join(root, d)):
            for n in range(r.randrange(3)):
                with open(os.path.join(root, d, r.choice(["old.wasm", "x.[]", "r0.wasm", "é"])), "wb") as f:
                    f.write(bytes(r.randrange(256) for _ in range(r.randrange(40))))
    if exists:
        with open(os.path.join(root, "Brack.toml"), "wb") as f:
            f.write(text.encode())

    leftover = r.random() < 0.12
    owner = r.choice(["alice", "Bob-2", "o"])
    repo = r.choice(["r", "std.html", "p.tex.x", "my-plugin", "A_b", "r9", "x"])
    version = r.choice(["v1", "1.0.0", "v2.0.0-rc.1+b7", "pkg@1.0.0", "release/7", "a@b@c", "@1", "v1#2", "100%", "v%31", "c#", "what?", "v 1", "版1"])
    name = repo.split(".")[0]
    if exists and readable and r.random() < 0.12 and plugins:
        name = r.choice([n for n in plugins])
        if re.fullmatch(r"[A-Za-z0-9_-]+", name):
            repo = name + r.choice(["", ".html"])
        name = repo.split(".")[0]
    schema = "github:%s/%s@%s" % (owner, repo, version)
    wellformed = True
    if r.random() < 0.15:
        wellformed = False
        schema = r.choice(["", "github", "github:", "github:o", "github:%s/%s" % (owner, repo), "github:/%s@%s" % (repo, version), "github:%s/@%s" % (owner, version),
                           "github:%s/%s@" % (owner, repo), "%s/%s@%s" % (owner, repo, version), "gitlab:%s/%s@%s" % (owner, repo, version),
                           "github:%s/%s/more@%s" % (owner, repo, version.replace("/", "-")), "@%s" % version, ":/@", "github@%s/%s:%s" % (owner, repo, version.replace("@", "-")),
                           "https://github.com/%s/%s@%s" % (owner, repo, version), "git:%s/%s@%s" % (owner, repo, version)])
    size = r.choice([0, 1, 10, 300, 5000, 30000, 200000])
    if r.random() < 0.3:
        size = r.randrange(4000)
    body = bytes(r.getrandbits(8) for _ in range(min(size, 997))) * (size // 997 + 1)
    body = body[:size]
    url = "/%s/%s/releases/download/%s/%s.wasm" % (owner, repo, version, repo)
    box.hub.artefacts = {url: body}
    # what a mistaken reading of the schema would ask for
    for o, p, v in ((owner, repo, version.split("@")[0]), (owner, repo, version.split("@")[-1]), (owner, repo, ""), (owner, "more", version), ("", repo, version)):
        box.hub.artefacts.setdefault("/%s/%s/releases/download/%s/%s.wasm" % (o, p, v, p), b"wrong")
    faults, storage = {}, None
    k = r.random()
    if k < 0.25 and size:
        faults[url] = net.fault(r, size)
    elif k < 0.25:
        faults[url] = ("status", r.choice([404, 500]))
    elif k < 0.31:
        faults["connect"] = r.choice(["refuse", "hangup", "certificate"])
    elif k < 0.75:
        box.learn("add", ["add", schema], root) if wellformed and exists and readable and name not in plugins and r.random() < 1 and "add" not in box.places else None
        # learning has changed the project
        if exists:
            with open(os.path.join(root, "Brack.toml"), "wb") as f:
                f.write(text.encode())
        storage = box.storage(r, "add", max(size, len(text), 10) + 100)
    elif k < 0.78 and not os.path.exists(os.path.join(root, "plugins")):
        storage = ("file in the way",)
        with open(os.path.join(root, "plugins"), "wb") as f:
            f.write(b"not a directory")
    if leftover and storage != ("file in the way",):
        # what an earlier attempt left behind
        os.makedirs(os.path.join(root, "plugins"), exist_ok=True)
        for n in r.sample([repo + ".wasm", name + ".wasm", name, repo], r.randrange(1, 3)):
            with open(os.path.join(root, "plugins", n), "wb") as f:
                f.write(r.choice([body if n == repo + ".wasm" else b"", body[:len(body) // 2], b"", b"something else", body + b"x"]))
        box.ev.count("adds over leftover files")
    before = tree(root)
    box.hub.reset(faults)
    box.hub.styles = {url: r.choice(["length", "length", "chunked", "slow", "close", "redirect"])}
    case = {"configuration": text, "schema": schema, "faults": str(faults), "storage": str(storage), "size": size}
    box.case = case
    sound = wellformed and exists and readable and name not in plugins
    code, out, err, hit = box.brack(["add", schema], root, storage)
    after = tree(root)
    requests = list(box.hub.requests)
    case["observed"] = "exit %s, %s, injected: %s" % (code, err[-300:], hit)
    ev = box.ev
    ev.case([text, schema, faults, str(storage)], sample="add %s with %s, %s: exit %s" % (schema, faults or "no HTTP fault", storage or "no storage fault", code))
    ev.count("requests recorded", len(requests))

    def complete(a):
        """Is this what success leaves behind?"""
        try:
            got = tomllib.loads(a.get("Brack.toml", b"").decode())
        except (ValueError, UnicodeDecodeError):
            return "Brack.toml is not readable: %r" % a.get("Brack.toml")
        new = dict(got.get("plugins", {}))
        extra = [n for n in new if n not in plugins]
        if len(extra) != 1:
            return "the new entries are %s" % extra
        entry = new.pop(extra[0])
        if {k: entry.get(k) for k in ("schema", "owner", "repo", "version")} != {"schema": "github", "owner": owner, "repo": repo, "version": version}:
            return "the new entry is %s" % entry
        if any(v for k, v in entry.items() if k not in ("schema", "owner", "repo", "version")):
            return "the new entry has hooks: %s" % entry
        if new != plugins:
            return "the plugin entries %s became %s" % (plugins, new)
        if got.get("document") != want["document"]:
            return "the document section %s became %s" % (want["document"], got.get("document"))
        if set(got) - {"document", "plugins"}:
            return "more sections: %s" % list(got)
        if not any(p.startswith("plugins/") and b == body and before.get(p) != b for p, b in a.items()) and \
                not any(p.startswith("plugins/") and b == body for p, b in a.items()):
            return "the file served is not in plugins: %s" % {p: len(b) for p, b in a.items() if p.startswith("plugins/")}
        return None

    for p, b in before.items():
        if p != "Brack.toml" and os.path.basename(p) not in (repo + ".wasm", "plugins"):
            ensure(after.get(p) == b, "%s changed or vanished", p)
    if code == 0:
        ensure(sound, "add %r succeeded (exists=%s readable=%s entries=%s)", schema, exists, readable, list(plugins))
        ensure(not faults, "add succeeded although the download failed (%s)", faults)
        ensure(storage != ("file in the way",), "add succeeded although it could not store anything")
        ensure(url in requests, "add succeeded without asking for %s: %s", url, requests)
        problem = complete(after)
        ensure(problem is None, "after success (injected: %s): %s", hit, problem)
        ev.count("successful adds")
    else:
        if code == -9 and storage and storage[0] in ("kill", "error"):
            ev.count("adds killed at a system call")
            if after.get("Brack.toml") != before.get("Brack.toml"):
                ensure(sound, "a refused add changed Brack.toml")
                problem = complete(after)
                ensure(problem is None, "after being killed (%s): %s", hit, problem)
                return
        else:
            # an injected error may have hit something that is no storage (waking a thread up, say)
            ensure(hit or (code > 0 and "panicked" not in err), "add crashed: %s %s", code, err[-300:])
            ensure(not sound or faults or storage, "add fails without a reason: %s", err[-400:])
            ev.count("failed adds: " + ("HTTP" if faults else storage[0] if storage else "refused"))
        ensure(after.get("Brack.toml") == before.get("Brack.toml"), "add failed (%s), and Brack.toml changed", err[-200:])
        if sound and (faults or storage):
            # nothing happened, so it can be done again
            if storage == ("file in the way",):
                os.unlink(os.path.join(root, "plugins"))
            box.hub.reset()
            code, out, err, _ = box.brack(["add", schema], root)
            ensure(code == 0, "after a failed add, the same add fails without a fault: %s", err[-300:])
            problem = complete(tree(root))
            ensure(problem is None, "after a repeated add: %s", problem)
            ev.count("adds repeated after a fault")


# ---------------------------------------------------------------------------------------------- C16

NAMES = ["p", "q", "std", "日本", "a_b", "ab", "p1"]


def lsp_message(m):
    b = json.dumps(m).encode()
    return b"Content-Length: %d\r\n\r\n" % len(b) + b


def lsp_read(out):
    data, messages = out.encode("utf-8", "surrogateescape"), []
    while data:
        m = re.match(rb"Content-Length: (\d+)\r\n(?:[^\r\n]+\r\n)*\r\n", data)
        if not m:
            break
        n = int(m.group(1))
        messages.append(json.loads(data[m.end():m.end() + n]))
        data = data[m.end() + n:]
    return messages


def c16(box, r):
    root = os.path.join(box.work, "build")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, "docs"))
    artefacts, ids = {}, {}

    def artefact(owner, repo, version, name, backend):
        url = "/%s/%s/releases/download/%s/%s.%s.wasm" % (owner, repo, version, name, backend)
        if url not in artefacts:
            i = "i%012x" % r.getrandbits(48)
            meta = json.dumps([{"command_name": c, "call_name": "who", "argument_types": [], "return_type": "TInline"} for c in ("who", i)])
            b = net.patch(net.patch(box.probe, b"META", meta.encode()), b"NAME", i.encode())
            if r.random() < 0.3:
                b = net.padded(b, r.choice([1, 1000, 20000, 70000, 300000]))
            artefacts[url], ids[url] = b, i
        return url

    owners, repos, versions = ["alice", "bob", "alic"], ["r1", "r2", "er1", "r1.x"], ["v1", "v2", "1", "v1.0"]
    if r.random() < 0.3:
        # all of these are names of tags, or could be
        versions = r.choice([["v1", "v1#2", "v1#3"], ["v%31", "v1", "100%"], ["v1?", "v1", "v1?x=2"], ["release/1", "release/1+b", "v 1", "版1"]])
    config = {}
    backend = r.choice(["html", "tex"])
    fetched = set()
    steps = r.randrange(4, 9)
    log = []
    box.case = {"history": log}
    ev = box.ev

    def change():
        nonlocal backend
        k = r.random()
        if k < 0.15:
            backend = r.choice(["html", "tex", "md"])
        elif k < 0.3 and config:
            config.pop(r.choice(sorted(config)))
        elif k < 0.6 and config:
            n = r.choice(sorted(config))
            f = r.choice(["owner", "repo", "version", "version"])
            config[n] = dict(config[n], **{f: r.choice({"owner": owners, "repo": repos, "version": versions}[f])})
        elif k < 0.7 and len(config) >= 2:
            # two plugins trade places, or become the same but for their names
            a, b = r.sample(sorted(config), 2)
            config[a], config[b] = (config[b], config[a]) if r.random() < 0.5 else (config[a], dict(config[a]))
        elif k < 0.78 and config:
            n = r.choice(sorted(config))
            h = r.choice(["document_hook", "stmt_hook", "expr_hook", "text_hook"])
            e = dict(config[n])
            if h in e:
                e.pop(h)
            else:
                e[h] = False
            config[n] = e
        else:
            for _ in range(r.choice([1, 1, 2, 4])):
                config[r.choice(NAMES)] = {"owner": r.choice(owners), "repo": r.choice(repos), "version": r.choice(versions)}

    def key(n):
        return json.dumps([n, backend, config[n]], sort_keys=True)

    used = []

    def write():
        whole = r.random() < 0.5
        lines = ["[document]", 'name = "x"', 'version = "1"', "backend = %s" % net.toml_string(backend), "authors = []"]
        for n in r.sample(sorted(config), len(config)):
            lines += ["[plugins.%s]" % net.toml_string(n), 'schema = "github"'] + [
                "%s = %s" % (k, json.dumps(v) if isinstance(v, bool) else net.toml_string(v)) for k, v in config[n].items()]
        with open(os.path.join(root, "Brack.toml"), "w", encoding="utf-8") as f:
            f.write("\n".join(lines) + "\n")
        with open(os.path.join(root, "docs", "main.[]"), "w", encoding="utf-8") as f:
            # a plugin which no document uses is a configured plugin all the same
            used[:] = [n for n in sorted(config) if whole or r.random() < 0.5]
            f.write(" ".join("[%s.who]" % n for n in used))

    def urls():
        return {n: artefact(config[n]["owner"], config[n]["repo"], config[n]["version"], n, backend) for n in config}

    def build(faults, storage, what):
        u = urls()
        box.hub.artefacts = artefacts
        needed = [u[n] for n in u if key(n) not in fetched]
        order = r.sample(sorted(set(needed)), len(set(needed)))
        box.hub.reset(faults, order)
        box.hub.styles = {x: r.choice(["length", "length", "chunked", "slow", "close", "redirect"]) for x in needed}
        shutil.rmtree(os.path.join(root, "out"), ignore_errors=True)
        args, stdin = ["build"], None
        if what == "editor":
            args = ["language-server"]
            uri = "file://" + net.urllib.parse.quote(os.path.join(root, "docs", "main.[]"))
            stdin = b"".join(lsp_message(dict(m, jsonrpc="2.0")) for m in [
                {"id": 1, "method": "initialize", "params": {"processId": None, "rootUri": None, "capabilities": {}}},
                {"method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "brack", "version": 1, "text": ""}}},
                {"id": 2, "method": "textDocument/completion", "params": {"textDocument": {"uri": uri}, "position": {"line": 0, "character": 1},
                                                                       "context": {"triggerKind": 2, "triggerCharacter": "["}}}])
        code, out, err, hit = box.brack(args, root, storage, stdin)
        requests, completed = list(box.hub.requests), list(box.hub.completed)
        log.append("%s backend=%s config=%s faults=%s storage=%s -> exit %s, requests %s, injected %s, %s" % (
            what, backend, json.dumps(config, sort_keys=True, ensure_ascii=False), faults, storage, code, requests, hit, err[-200:]))
        ev.case([what, backend, config, str(faults), str(storage), order], nontrivial=bool(config), sample=log[-1][:300])
        ev.count("requests recorded", len(requests))
        if len(order) > 1 and len(completed) >= len(order):
            ev.count("concurrent downloads completed in a chosen order" if completed[:len(order)] == order else "concurrent downloads completed in another order")
            box.orders.add("%d:%s" % (len(order), [sorted(order).index(x) for x in completed if x in order]))
        kept = [u[n] for n in u if key(n) in fetched]
        again = [x for x in requests if x in kept and x not in needed]
        ensure(hit or not again, "asked again for %s, which is already there for the same configuration", again)
        ensure(not box.hub.odd, "odd requests: %s", box.hub.odd)
        if code == 0 and what == "build":
            ensure(not any(x in faults for x in needed + ["connect"] if x == "connect" and needed or x in needed), "the build succeeded although a download failed: %s", faults)
            try:
                text = open(os.path.join(root, "out", "main." + backend), encoding="utf-8").read()
            except OSError:
                raise Bad("the build succeeded without an output (injected: %s)" % hit)
            got = re.findall(r"\{who:([^}]*)\}", text)
            want = [ids[u[n]] for n in used]
            ensure(got == want, "plugins %s are in use instead of %s (%s)", [next((x for x in ids if ids[x] == g), g) for g in got], [u[n] for n in used], text[:200])
            files = {b for p, b in tree(os.path.join(root, "plugins")).items()} if os.path.isdir(os.path.join(root, "plugins")) else set()
            for n in config:
                ensure(artefacts[u[n]] in files, "the artefact of %s is not stored as it was served", n)
            for n in config:
                fetched.add(key(n))
            ev.count("successful builds")
            ev.count("plugins in use compared", len(used))
            ev.count("plugins stored compared", len(config))
        elif what == "editor":
            messages = lsp_read(out)
            answer = [m for m in messages if m.get("id") == 2]
            if not storage and not faults:
                ensure(code == 0 and answer, "the editor session fails: %s %s", code, err[-300:])
            if answer and answer[0].get("result") and not faults:
                items = answer[0]["result"]
                items = items["items"] if isinstance(items, dict) else items
                offered = json.dumps(items)
                here = [x for x in ids if ids[x] in offered]
                ensure(sorted(here) == sorted(u.values()), "the editor uses %s instead of %s", here, list(u.values()))
                for n in config:
                    fetched.add(key(n))
                ev.count("editor sessions")
        return code, err, hit

    for step in range(steps):
        if step == 0 or r.random() < 0.75:
            for _ in range(r.choice([1, 1, 2, 3])):
                change()
        write()
        stored = os.path.join(root, "plugins")
        if os.path.isdir(stored) and r.random() < 0.3:
            # time passes, or the files come from somewhere else
            age = r.choice([3600, 86400, 8 * 86400, 40 * 86400, 400 * 86400, 3000 * 86400, -86400])
            for f in os.listdir(stored):
                if r.random() < 0.8:
                    os.utime(os.path.join(stored, f), (time.time() - age,) * 2)
            log.append("the files in plugins are %d hours old" % (age // 3600))
            ev.count("steps with files of another age")
        u = urls()
        needed = sorted({u[n] for n in u if key(n) not in fetched})
        faults, storage = {}, None
        k = r.random()
        if k < 0.3 and needed:
            for x in r.sample(needed, r.randrange(1, len(needed) + 1)):
                faults[x] = net.fault(r, len(artefacts[x]))
            if r.random() < 0.1:
                faults = {"connect": r.choice(["refuse", "hangup", "certificate"])}
        elif k < 0.6 and needed:
            if "build" not in box.places:
                other = root + "-learn"
                shutil.rmtree(other, ignore_errors=True)
                shutil.copytree(root, other)
                box.hub.artefacts = artefacts
                box.hub.reset()
                box.hub.styles = {}
                box.learn("build", ["build"], other)
                shutil.rmtree(other, ignore_errors=True)
            storage = box.storage(r, "build", max(len(artefacts[x]) for x in needed) + 100)
            if r.random() < 0.1 and not os.path.exists(os.path.join(root, "plugins")):
                storage = ("file in the way",)
                with open(os.path.join(root, "plugins"), "w") as f:
                    f.write("not a directory")
        what = "editor" if r.random() < 0.15 and not storage else "build"
        code, err, hit = build(faults, storage, what)
        if what == "editor":
            continue
        if code == 0:
            if storage:
                ev.count("builds that a storage fault did not hit or hurt")
            continue
        if storage and storage[0] in ("kill", "error") and code == -9:
            ev.count("builds killed at a system call")
        else:
            ensure(hit or (code > 0 and "panicked" not in err), "the build crashes: %s %s", code, err[-300:])
            ev.count("failed builds: " + ("HTTP" if faults else storage[0] if storage else "?"))
            ensure(faults or storage, "the build fails without a reason: %s", err[-400:])
        if storage == ("file in the way",):
            os.unlink(os.path.join(root, "plugins"))
        # it recovers by itself, perhaps after another change
        if r.random() < 0.3:
            change()
            write()
        code, err, _ = build({}, None, "build")
        ensure(code == 0, "the build does not recover from the one that failed: %s", err[-400:])
        ev.count("builds that recovered")


# ----------------------------------------------------------------------------------------------

CASES = {"C16": c16, "C17": c17}


def _worker(prop, tier, seed, shard, cases, seconds, only, work, wasm, queue):
    rule = PLAN[prop][-1]
    ev = common.Evidence(prop, tier, "", rule)
    result = {"violations": [], "error": None, "complete": True}
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        box = Box(work, wasm, ev)
        box.orders = set()
        started = time.time()
        for index in (range(cases) if only is None else [only]):
            if time.time() - started > seconds:
                result["complete"] = False
                break
            r = random.Random("%s/%d/%d/%d" % (prop, seed, shard, index))
            box.case = {}
            try:
                CASES[prop](box, r)
            except Bad as e:
                case = dict(box.case, seed=seed, shard=shard, index=index)
                result["violations"].append((str(e), case))
                if len(result["violations"]) >= 3:
                    break
        if box.orders:
            ev.count("distinct completion orders of concurrent downloads (per worker)", len(box.orders))
        if os.environ.get("MONITOR_TALK"):
            print(sorted(box.slow)[-4:], flush=True)
        if not box.tracing:
            ev.count("workers without system-call injection")
    except common.Inconclusive as e:
        result["error"] = str(e)
    except Exception:
        result["error"] = traceback.format_exc()
    result.update(evaluations=ev.evaluations, nontrivial=sorted(ev.nontrivial), counters=ev.counters, samples=ev.samples)
    queue.put(result)


def run(prop, tier, ev, only=None):
    q, qs, t, ts, _ = PLAN[prop]
    cases, seconds = (q, qs) if tier == "quick" else (t, ts)
    common.build(monitor=False, brack=True)
    work = common.scratch()
    try:
        wasm = os.path.join(work, "wasm")
        common.compile_plugins(wasm)
        context = multiprocessing.get_context("fork")
        queue = context.Queue()
        procs = []
        for shard in range(SHARDS) if only is None else [only[1]]:
            d = os.path.join(work, "w%d" % shard)
            os.makedirs(d)
            p = context.Process(target=_worker, args=(prop, tier, common.seed() if only is None else only[0], shard, cases, seconds,
                                                      None if only is None else only[2], d, wasm, queue))
            p.start()
            procs.append(p)
        verdicts, errors = [], []
        for _ in procs:
            try:
                res = queue.get(timeout=seconds + 300)
            except Exception:
                raise common.Inconclusive("a worker does not answer")
            if res["error"]:
                errors.append(res["error"])
            ev.evaluations += res["evaluations"]
            ev.nontrivial.update(res["nontrivial"])
            for k, v in res["counters"].items():
                ev.count(k, v)
            ev.samples.extend(res["samples"][:1])
            if not res["complete"]:
                ev.count("workers stopped by the time limit")
            verdicts += [tuple(v) for v in res["violations"]]
        ev.count("worker processes", len(procs))
        if errors and not verdicts:
            raise common.Inconclusive(errors[0])
        return verdicts
    finally:
        for p in procs if "procs" in locals() else []:
            p.join(5)
            if p.is_alive():
                p.kill()
        shutil.rmtree(work, ignore_errors=True)


def replay(prop, case, ev):
    return run(prop, "quick", ev, only=(case["seed"], case["shard"], case["index"]))
