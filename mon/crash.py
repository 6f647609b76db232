"""Builds that are interrupted (C27), and programs that run in one project at the same time (C28)."""
import json, os, re, shutil, signal, subprocess, time
from . import common, downloads, net
from .downloads import Bad, ensure, lsp_message, lsp_read, tree

try:
    import tomllib
except ImportError:  # pragma: no cover
    tomllib = None

RULE_27 = ("histories of builds of one project killed at a system call, at an instant, or by a storage fault, with documents and configuration edited in between, "
           "each history ended by an undisturbed build; non-trivial: distinct (history, outcome) in which a build was interrupted")
RULE_28 = ("several builds, language servers, compilations and at most one add started in one project at the same time, with random starts, answers and delayed "
           "system calls; non-trivial: distinct (set of programs, project) of at least two programs")
PLAN = {"C27": (9, 40, 1500, 750, RULE_27), "C28": (10, 40, 1500, 750, RULE_28)}
downloads.PLAN.update(PLAN)
NAMES = ["p", "q", "std", "日本", "a_b", "ab"]


class Project:
    """A project, and what building it gives."""

    def __init__(self, box, r, where):
        self.box, self.r = box, r
        self.root = os.path.join(box.work, where)
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(os.path.join(self.root, "docs"))
        self.artefacts, self.ids = {}, {}
        self.backend = r.choice(["html", "tex"])
        self.config, self.docs = {}, {}
        for n in r.sample(NAMES, r.choice([1, 1, 2, 3])):
            self.config[n] = self.entry()
        self.others = {"notes.txt": b"mine", "docs/picture.png": b"\x89PNG\x00", "docs/readme.md": b"[not.brack"}
        for p in r.sample(sorted(self.others), r.randrange(4)):
            with open(os.path.join(self.root, p), "wb") as f:
                f.write(self.others[p])
        self.others = {p: b for p, b in self.others.items() if os.path.exists(os.path.join(self.root, p))}
        for n in r.sample(["main", "a", "chapter 2", "é", "x.y"], r.choice([1, 2, 3, 4])):
            self.docs[n] = None
        self.edit()
        self.write()

    def entry(self):
        r = self.r
        return {"owner": r.choice(["alice", "bob"]), "repo": r.choice(["r1", "r2"]), "version": r.choice(["v1", "v2", "1"])}

    def edit(self):
        """New texts for some documents."""
        r = self.r
        for n in sorted(self.docs):
            if self.docs[n] is None or r.random() < 0.5:
                parts = []
                for _ in range(r.choice([0, 1, 2, 4])):
                    parts.append(("text", "%s%d " % (r.choice(["alpha", "βeta", "x"]), r.randrange(10 ** 6))))
                    if self.config and r.random() < 0.8:
                        parts.append(("call", r.choice(sorted(self.config))))
                if r.random() < 0.3:
                    parts.append(("text", "".join(r.choice("abcdefg ") for _ in range(50)).strip() * r.choice([1, 100, 400])))
                self.docs[n] = parts

    def change(self):
        """Another configuration."""
        r = self.r
        k = r.random()
        if k < 0.2:
            self.backend = r.choice(["html", "tex", "md"])
        elif k < 0.8:
            n = r.choice(sorted(self.config))
            self.config[n] = self.entry()
        else:
            self.config.setdefault(r.choice(NAMES), self.entry())

    def artefact(self, n, backend=None):
        e = self.config[n]
        url = "/%s/%s/releases/download/%s/%s.%s.wasm" % (e["owner"], e["repo"], e["version"], n, backend or self.backend)
        if url not in self.artefacts:
            i = "i%012x" % self.r.getrandbits(48)
            meta = json.dumps([{"command_name": c, "call_name": "who", "argument_types": [], "return_type": "TInline"} for c in ("who", i)])
            b = net.patch(net.patch(self.box.probe, b"META", meta.encode()), b"NAME", i.encode())
            if self.r.random() < 0.4:
                b = net.padded(b, self.r.choice([1000, 70000, 300000]))
            self.artefacts[url], self.ids[url] = b, i
        return url

    def source(self, parts):
        return "".join(t if k == "text" else "[%s.who]" % t for k, t in parts)

    def outputs(self):
        return {"out/%s.%s" % (n, self.backend): "".join(
            t if k == "text" else "{who:%s}" % self.ids[self.artefact(t)] for k, t in parts).encode() for n, parts in self.docs.items()}

    def toml(self):
        lines = ["[document]", 'name = "x"', 'version = "1"', "backend = %s" % net.toml_string(self.backend), "authors = []"]
        for n in self.r.sample(sorted(self.config), len(self.config)):
            lines += ["[plugins.%s]" % net.toml_string(n), 'schema = "github"'] + ["%s = %s" % (k, net.toml_string(v)) for k, v in self.config[n].items()]
        return ("\n".join(lines) + "\n").encode()

    def write(self):
        self.sources = {"Brack.toml": self.toml()}
        for n, parts in self.docs.items():
            self.sources["docs/%s.[]" % n] = self.source(parts).encode()
        self.sources.update(self.others)
        for p, b in self.sources.items():
            with open(os.path.join(self.root, p), "wb") as f:
                f.write(b)
        for n in self.config:
            self.artefact(n)
        self.box.hub.artefacts = self.artefacts

    def check_sources(self, when, but=()):
        now = tree(self.root)
        for p, b in self.sources.items():
            ensure(p in but or now.get(p) == b, "%s: %s is %r", when, p, (now.get(p) or b"gone")[:80])
        return now

    def check_plugins(self, when, now):
        whole = set(self.artefacts.values())
        for p, b in now.items():
            ensure(not (p.startswith("plugins/") and p.endswith(".wasm")) or b in whole, "%s: %s holds %d bytes which are no artefact", when, p, len(b))

    def check_outputs(self, when, now):
        for p, b in self.outputs().items():
            got = now.get(p)
            ensure(got == b, "%s: %s is %s instead of %r", when, p, "missing" if got is None else "%d bytes: %r" % (len(got), got[:120]), b[:120])


# ---------------------------------------------------------------------------------------------- C27

def c27(box, r):
    p = Project(box, r, "crash")
    log = []
    box.case = {"history": log}
    ev = box.ev
    interrupted = 0
    if r.random() < 0.4:
        box.hub.reset()
        box.hub.styles = {}
        code, _, err, _ = box.brack(["build"], p.root)
        ensure(code == 0, "the first build fails: %s", err[-300:])
        p.check_outputs("after the first build", tree(p.root))
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        k = r.random()
        if k < 0.35:
            p.edit()
            p.write()
        elif k < 0.45:
            p.change()
            p.edit()
            p.write()
        if r.random() < 0.3:
            # everything is fetched already: the interruption hits generation
            other = p.root + "-full"
            shutil.rmtree(other, ignore_errors=True)
            shutil.copytree(p.root, other)
            box.hub.reset()
            code, _, err, _ = box.brack(["build"], other)
            if code == 0:
                shutil.copytree(os.path.join(other, "plugins"), os.path.join(p.root, "plugins"), dirs_exist_ok=True)
            shutil.rmtree(other, ignore_errors=True)
        # what it touches depends on what is there already
        box.places.pop("crash", None)
        other = p.root + "-learn"
        storage = None
        if r.random() < 0.7 and box.tracing:
            shutil.rmtree(other, ignore_errors=True)
            shutil.copytree(p.root, other)
            box.hub.reset()
            box.learn("crash", ["build"], other)
            shutil.rmtree(other, ignore_errors=True)
            places = box.places.get("crash") or []
            if places:
                call = r.choice(sorted({x for x, _ in places}))
                n = r.choice([k for x, k in places if x == call])
                storage = ("kill", call, n, r.choice(["KILL", "TERM"])) if r.random() < 0.75 or call not in downloads.ERRORS else (
                    "error", call, r.choice(downloads.ERRORS[call]), n, r.choice(["", "+"]))
        if storage is None:
            storage = ("timer", r.choice([0.004, 0.01, 0.02, 0.04, 0.08, 0.15]) * r.uniform(0.5, 1.5)) if r.random() < 0.6 else (
                "limit", r.choice([0, 1, 10, 100, r.randrange(70000)]))
        faults = {}
        if r.random() < 0.15:
            url = r.choice(sorted(p.artefact(n) for n in p.config))
            faults[url] = net.fault(r, len(p.artefacts[url]))
        box.hub.reset(faults)
        box.hub.styles = {x: r.choice(["length", "chunked", "slow", "close"]) for x in p.artefacts}
        code, out, err, hit = box.brack(["build"], p.root, storage)
        now = p.check_sources("after an interrupted build (%s)" % (storage,))
        p.check_plugins("after an interrupted build (%s)" % (storage,), now)
        want = p.outputs()
        partial = [x for x in want if x in now and now[x] != want[x]]
        log.append("%s faults=%s -> exit %s, injected %s, %s, outputs so far %s" % (
            storage, faults, code, hit, err[-200:], {x: len(b) for x, b in now.items() if x.startswith("out/")}))
        if code != 0:
            interrupted += 1
            ev.count("builds interrupted by " + storage[0])
            ev.count("unfinished or outdated outputs left behind", len(partial))
            ev.count("missing outputs", len([x for x in want if x not in now]))
            ev.count("temporary files left behind", len([x for x in now if x.endswith(".tmp")]))
        elif not faults and not hit:
            p.check_outputs("after a build that was not hit", now)
    box.hub.reset()
    box.hub.styles = {}
    if r.random() < 0.3:
        p.edit()
        p.write()
    code, out, err, _ = box.brack(["build"], p.root)
    ensure(code == 0, "the build after %d interrupted ones fails: %s", interrupted, err[-400:])
    now = p.check_sources("after the last build")
    p.check_plugins("after the last build", now)
    p.check_outputs("after %d interrupted builds and a whole one" % interrupted, now)
    ev.case([p.docs, p.config, log], nontrivial=interrupted > 0, sample=log[-1][:300] if log else None)
    ev.count("builds after interrupted ones")
    ev.count("outputs compared", len(p.docs))
    if r.random() < 0.3:
        # the plugins of the project, used directly
        files = sorted(x for x in now if x.startswith("plugins/") and x.endswith(".wasm"))
        current = [x for x in files if now[x] in {p.artefacts[p.artefact(n)] for n in p.config}]
        if files == current and all(re.search(r"_[0-9A-Za-z]+\.wasm$", x) for x in files):
            n = r.choice(sorted(p.docs))
            code, out, err, _ = box.brack(["compile", "-p", "plugins", "-b", p.backend, "-f", "docs/%s.[]" % n], p.root)
            ensure(code == 0, "compile does not work after interrupted builds: %s", err[-300:])
            want = p.outputs()["out/%s.%s" % (n, p.backend)]
            ensure(out.encode() == want + b"\n", "compile gives %r instead of %r after interrupted builds", out[:120], want[:120])
            ev.count("compilations after interrupted builds")


# ---------------------------------------------------------------------------------------------- C28

DELAYS = ["openat", "write", "fsync", "rename", "mkdir", "close", "statx"]


def c28(box, r):
    p = Project(box, r, "shared")
    ev = box.ev
    box.hub.reset()
    box.hub.styles = {x: r.choice(["length", "length", "chunked", "slow", "close"]) for x in p.artefacts}
    ready = False
    if r.random() < 0.4:
        code, _, err, _ = box.brack(["build"], p.root)
        ensure(code == 0, "the first build fails: %s", err[-300:])
        ready = True
        if r.random() < 0.7:
            if r.random() < 0.6:
                p.change()
                ready = False
            p.edit()
            p.write()
        box.hub.reset()
        box.hub.styles = {}
    kinds = ["build"] * r.choice([1, 2, 2, 3]) + ["editor"] * r.choice([0, 1, 1, 2])
    add = r.random() < 0.3
    new = None
    if add:
        kinds.append("add")
        new = r.choice([n for n in ("fresh", "z9") if n not in p.config])
        url = "/carol/%s.html/releases/download/v3/%s.html.wasm" % (new, new)
        served = b"served for add"
        before = dict(p.config)
        # builds that see the new entry ask for it by its own name
        p.config[new] = {"owner": "carol", "repo": new + ".html", "version": "v3"}
        p.artefact(new)
        p.config = before
        # what add fetches, and what a build fetches for it, has the same name when the backend is html
        p.artefacts.setdefault(url, served)
        served = p.artefacts[url]
        box.hub.artefacts = p.artefacts
    if ready and not add and all(re.fullmatch(r"[^/]+_[0-9A-Za-z]+\.wasm", x) for x in os.listdir(os.path.join(p.root, "plugins"))):
        kinds += ["compile"] * r.choice([0, 1, 2])
    compiled = {}
    r.shuffle(kinds)
    programs = []
    uris = {n: "file://" + net.urllib.parse.quote(os.path.join(p.root, "docs", n + ".[]")) for n in p.docs}
    log = []
    box.case = {"programs": log}
    procs = []
    # sometimes all of them are slow at the same point
    together = (r.choice(["rename", "rename", "write", "openat"]), r.choice([100000, 300000]), r.choice(["delay_enter", "delay_exit"])) if r.random() < 0.3 else None
    if together and together[0] in ("write", "openat"):
        together = (together[0], 2000, together[2])
    for i, kind in enumerate(kinds):
        args, stdin = ["build"], b""
        if kind == "editor":
            args = ["language-server"]
            uri = uris[r.choice(sorted(uris))]
            stdin = b"".join(lsp_message(dict(m, jsonrpc="2.0")) for m in [
                {"id": 1, "method": "initialize", "params": {"processId": None, "rootUri": None, "capabilities": {}}},
                {"method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "brack", "version": 1, "text": ""}}},
                {"id": 2, "method": "textDocument/completion", "params": {"textDocument": {"uri": uri}, "position": {"line": 0, "character": 1},
                                                                       "context": {"triggerKind": 2, "triggerCharacter": "["}}}])
        elif kind == "add":
            args = ["add", "github:carol/%s.html@v3" % new]
        elif kind == "compile":
            n = r.choice(sorted(p.docs))
            args = ["compile", "-p", "plugins", "-b", p.backend, "-f", "docs/%s.[]" % n]
            kind = "compile docs/%s.[]" % n
            compiled[kind] = p.outputs()["out/%s.%s" % (n, p.backend)] + b"\n"
        cmd = [common.BRACK] + args
        delay = None
        if box.tracing and together and kind != "editor":
            delay = together
            cmd = ["strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + delay[0], "-e", "inject=%s:%s=%d" % (delay[0], delay[2], delay[1])] + cmd
        elif box.tracing and r.random() < 0.6:
            # one kind of system call is slow for this program
            delay = (r.choice(DELAYS), r.choice([200, 1000, 3000]), r.choice(["delay_enter", "delay_exit"]))
            if delay[0] in ("rename", "fsync", "mkdir"):
                delay = (delay[0], r.choice([5000, 20000, 60000]), delay[2])
            cmd = ["strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + delay[0], "-e", "inject=%s:%s=%d" % (delay[0], delay[2], delay[1])] + cmd
        start = r.choice([0, 0, 0.005, 0.02, 0.05, 0.1])
        log.append("%s after %.3f s, %s" % (kind, start, delay))
        programs.append((kind, cmd, stdin, start))
    began = time.time()
    files = []
    for i, (kind, cmd, stdin, start) in enumerate(sorted(programs, key=lambda x: x[3])):
        while time.time() - began < start:
            time.sleep(0.001)
        out = open(os.path.join(box.work, "out.%d" % i), "w+b")
        err = open(os.path.join(box.work, "err.%d" % i), "w+b")
        inp = open(os.path.join(box.work, "in.%d" % i), "w+b")
        inp.write(stdin)
        inp.seek(0)
        files.append((inp, out, err))
        procs.append((kind, subprocess.Popen(cmd, cwd=p.root, env=box.hub.env(box.home), stdin=inp, stdout=out, stderr=err, start_new_session=True), out, err))
    late = []
    try:
        for kind, q, _, _ in procs:
            try:
                q.wait(timeout=max(1, 120 - (time.time() - began)))
            except subprocess.TimeoutExpired:
                late.append(kind)
    finally:
        for _, q, _, _ in procs:
            if q.poll() is None:
                os.killpg(q.pid, signal.SIGKILL)
                q.wait()
    ensure(not late, "%s do not end when run at the same time (%s)", late, log)
    results = []
    for (kind, q, out, err) in procs:
        out.seek(0)
        err.seek(0)
        results.append((kind, q.returncode, out.read().decode("utf-8", "replace"), err.read().decode("utf-8", "replace")))
    for fs in files:
        for f in fs:
            f.close()
    ev.case([sorted(kinds), p.docs, p.config, log], nontrivial=len(kinds) > 1, sample="; ".join(log)[:300])
    ev.count("programs run at the same time", len(kinds))
    with box.hub.lock:
        requests = list(box.hub.requests)
    ev.count("requests recorded", len(requests))
    twice = len(requests) - len(set(requests))
    ev.count("artefacts fetched by several programs at once", twice)
    for kind, code, out, err in results:
        box.case["observed"] = [(k, c, e[-300:]) for k, c, _, e in results]
        ensure(code == 0, "%s fails (exit %s) while %s run: %s", kind, code, sorted(kinds), err[-400:])
        if kind in compiled:
            ensure(out.encode() == compiled[kind], "%s gives %r instead of %r while %s run", kind, out[:120], compiled[kind][:120], sorted(kinds))
            ev.count("compilations beside other programs")
        if kind == "editor":
            answer = [m for m in lsp_read(out) if m.get("id") == 2]
            ensure(len(answer) == 1 and answer[0].get("result") is not None, "the editor gets %s while %s run", answer, sorted(kinds))
            offered = json.dumps(answer[0]["result"])
            here = sorted(p.ids[x] for x in p.ids if p.ids[x] in offered)
            want = sorted(p.ids[p.artefact(n)] for n in p.config)
            with_new = None
            if add:
                keep = dict(p.config)
                p.config[new] = {"owner": "carol", "repo": new + ".html", "version": "v3"}
                with_new = sorted(want + [p.ids[p.artefact(new)]])
                p.config = keep
            ensure(here == want or here == with_new, "the editor offers %s instead of %s while %s run", here, want, sorted(kinds))
    now = p.check_sources("after %s at the same time" % sorted(kinds), but=("Brack.toml",) if add else ())
    p.check_plugins("after %s at the same time" % sorted(kinds), now)
    p.check_outputs("after %s at the same time" % sorted(kinds), now)
    ensure(not [x for x in now if x.endswith(".tmp")], "temporary files stay behind: %s", [x for x in now if x.endswith(".tmp")])
    if add:
        got = tomllib.loads(now["Brack.toml"].decode())
        want = tomllib.loads(p.sources["Brack.toml"].decode())
        want["plugins"][new] = {"schema": "github", "owner": "carol", "repo": new + ".html", "version": "v3"}
        for e in got.get("plugins", {}).values():
            for h in [h for h in e if h.endswith("_hook") and e[h] is False]:
                e.pop(h)
        ensure(got == want, "Brack.toml is %s instead of %s after %s at the same time", got, want, sorted(kinds))
        ensure(now.get("plugins/%s.html.wasm" % new) == served or served in now.values(), "the file add fetched is not there")
        ev.count("adds beside other programs")
    ev.count("outputs compared", len(p.docs))
    # and nothing is fetched again afterwards
    box.hub.reset()
    if add:
        p.config[new] = {"owner": "carol", "repo": new + ".html", "version": "v3"}
        p.sources["Brack.toml"] = now["Brack.toml"]
    code, _, err, _ = box.brack(["build"], p.root)
    ensure(code == 0, "a build after %s at the same time fails: %s", sorted(kinds), err[-300:])
    if not add:
        ensure(not box.hub.requests, "%s is fetched again after %s at the same time", box.hub.requests, sorted(kinds))
    p.check_outputs("in a build after %s at the same time" % sorted(kinds), tree(p.root))


downloads.CASES.update({"C27": c27, "C28": c28})
run = downloads.run
replay = downloads.replay
