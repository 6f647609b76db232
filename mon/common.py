"""Shared parts of the checks: building, supervising, reporting."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(REPO, "target")
BRACK = os.path.join(TARGET, "debug", "brack")
MONITOR = os.path.join(TARGET, "debug", "brack-monitor")


class Inconclusive(Exception):
    """The check could not reach a verdict: neither held nor violated."""


class Violation(Exception):
    def __init__(self, message, case):
        super().__init__(message)
        self.message, self.case = message, case


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def build_env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + env.get("PATH", "")
    env.update(
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=TARGET)
    env.pop("RUSTFLAGS", None)
    return env


def _tree_hash(root, skip):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if os.path.join(base, d) not in skip and d not in (".git", "target"))
        for f in sorted(files):
            p = os.path.join(base, f)
            if f.endswith((".rs", ".toml", ".lock", ".c")):
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build(monitor=True, brack=True):
    """Builds what a check runs from the working tree of /repo as it is now."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".monitor-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for wanted, name, cwd, binary, args in (
            (monitor, "monitor", os.path.join(VERIF, "harness"), MONITOR, []),
            (brack, "brack", REPO, BRACK, ["-p", "brack", "--bin", "brack"]),
        ):
            if not wanted:
                continue
            stamp_file = os.path.join(TARGET, ".monitor-stamp-" + name)
            stamp = _tree_hash(REPO, set()) + _tree_hash(os.path.join(VERIF, "harness"), set())
            old = open(stamp_file).read() if os.path.exists(stamp_file) else ""
            if old == stamp and os.path.exists(binary):
                continue
            # never let a file time decide whether a change is seen
            shared = os.path.join(TARGET, ".monitor-stamp-clean")
            if not os.path.exists(shared) or open(shared).read() != stamp:
                fp = os.path.join(TARGET, "debug", ".fingerprint")
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d.startswith("brack"):
                            shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
                with open(shared, "w") as f:
                    f.write(stamp)
            r = subprocess.run(["cargo", "build", "--offline"] + args, cwd=cwd, env=build_env(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise Inconclusive("build failed:\n" + r.stdout[-3000:])
            with open(stamp_file, "w") as f:
                f.write(stamp)


def compile_plugins(out):
    r = subprocess.run([os.path.join(VERIF, "plugins", "build.sh"), out], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Inconclusive("compiling the probe plugins failed:\n" + r.stdout[-3000:])


def scratch():
    return tempfile.mkdtemp(prefix="brackmon-")


def clean_env(extra=None):
    """Environment of the programs under observation."""
    env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "RUST_BACKTRACE": "0", "LANG": "C.UTF-8"}
    env.update(extra or {})
    return env


class Evidence:
    def __init__(self, prop, tier, level, rule):
        self.prop, self.tier, self.level, self.rule = prop, tier, level, rule
        self.started = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.counters = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.exhaustive = None

    def count(self, what, n=1):
        self.counters[what] = self.counters.get(what, 0) + n

    def case(self, key, nontrivial=True, sample=None):
        """One execution; `key` says which ones are the same."""
        self.evaluations += 1
        if nontrivial:
            if not isinstance(key, (bytes, str)):
                key = json.dumps(key, sort_keys=True, default=str)
            if isinstance(key, str):
                key = key.encode("utf-8", "surrogateescape")
            h = hashlib.sha1(key).hexdigest()[:16]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if sample is not None and len(self.samples) < 6:
                    self.samples.append(sample)

    def write(self):
        coverage = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": self.rule,
            "samples": self.samples[:6],
            "observed": dict(sorted(self.counters.items())),
        }
        if self.exhaustive is not None:
            coverage["exhaustive"] = self.exhaustive
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({
                "property": self.prop, "tier": self.tier, "seed": seed(), "level": self.level,
                "coverage": coverage, "assumptions": self.assumptions,
                "wall_s": round(time.time() - self.started, 2), "violations": len(self.violations),
            }, f, indent=1, ensure_ascii=True, default=str)
            f.write("\n")


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line.split(" ", 2)[2])
    return out


def replay_file(prop, case):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    data = json.dumps(case, indent=1, default=str, sort_keys=True)
    name = "%s-%s.json" % (prop, hashlib.sha1(data.encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(data + "\n")
    return path


# ------------------------------------------------------------------------------------------------

def _cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            fields = f.read().rsplit(")", 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def run_workers(ev, prop, tier, cases, seconds, only=None, shards=8, hang=60, extra=()):
    """Runs the in-process monitors in several processes and collects what they observed."""
    work = scratch()
    try:
        wasm = os.path.join(work, "wasm")
        compile_plugins(wasm)
        procs = []
        targets = range(shards) if only is None else [only[1]]
        sd = seed() if only is None else only[0]
        for shard in targets:
            cmd = [MONITOR, prop, "--seed", str(sd), "--shard", str(shard), "--cases", str(cases),
                   "--seconds", str(seconds), "--dir", work, "--wasm", wasm] + list(extra)
            if tier == "thorough":
                cmd.append("--thorough")
            if only is not None:
                cmd += ["--only", str(only[2])]
            log = open(os.path.join(work, "log.%d" % shard), "w")
            env = clean_env({"HOME": work})
            procs.append((shard, subprocess.Popen(cmd, stdout=log, stderr=log, env=env, cwd=work), log))
        state = {}
        verdicts = []
        pending = list(procs)
        while pending:
            time.sleep(0.2)
            for item in list(pending):
                shard, p, log = item
                rc = p.poll()
                if rc is None:
                    journal = os.path.join(work, "journal.%d" % shard)
                    try:
                        mark = os.stat(journal).st_mtime_ns
                    except OSError:
                        mark = 0
                    cpu = _cpu(p.pid)
                    if state.get(shard, (None, 0))[0] != mark:
                        state[shard] = (mark, cpu)
                    elif cpu - state[shard][1] > hang:
                        p.kill()
                        p.wait()
                        pending.remove(item)
                        verdicts.append(("still running after %d s of processor time" % hang, _journal(work, shard)))
                    continue
                pending.remove(item)
                log.close()
                text = open(os.path.join(work, "log.%d" % shard), errors="replace").read()
                if rc < 0:
                    if -rc in (6, 11, 7, 4, 8):
                        verdicts.append(("the process died of signal %d: %s" % (-rc, text[-300:].strip()), _journal(work, shard)))
                        continue
                    raise Inconclusive("worker %d ended by signal %d" % (shard, -rc))
                if rc != 0:
                    raise Inconclusive("worker %d: exit %d: %s" % (shard, rc, text[-2000:]))
                res = json.load(open(os.path.join(work, "result.%d.json" % shard)))
                ev.evaluations += res["evaluations"]
                ev.nontrivial.update(res["nontrivial"])
                for k, v in res["counters"].items():
                    ev.count(k, v)
                ev.samples.extend(res["samples"][:1])
                if not res["complete"]:
                    ev.count("workers stopped by the time limit")
                for v in res["violations"]:
                    verdicts.append((v["message"], v))
        ev.count("worker processes", len(procs))
        return verdicts
    finally:
        for _, p, _ in procs if "procs" in locals() else []:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(work, ignore_errors=True)


def _journal(work, shard):
    try:
        return json.load(open(os.path.join(work, "journal.%d" % shard)))
    except (OSError, ValueError):
        return {"shard": shard, "note": "no journal"}
