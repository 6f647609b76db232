//! Hostile plugins in the real program (C14).
//!
//! The program runs as a user who owns nothing but the case's own directory, so that a plugin which
//! does get out reaches nothing real.
use crate::case::Case;
use crate::cli::{changes, io, snapshot};
use crate::ensure;
use crate::front::Check;
use crate::lsp::{capabilities, items, uri, Session};
use crate::plug::{metadata, patch, Entry};
use crate::rng::fnv;
use crate::text::shorten;
use brack_plugin::types::Type;
use serde_json::json;
use std::net::TcpListener;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{chown, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const NOBODY: u32 = 54321;

/// How the program is started here: as whom, and with which environment.
pub struct Guise {
    pub user: Option<u32>,
    pub env: Vec<(String, String)>,
    pub exe: PathBuf,
}

/// Can this process become somebody else, and who can then run the program?
fn guise(c: &Case, env: Vec<(String, String)>) -> Result<Guise, String> {
    let exe = std::env::current_exe().map_err(|e| format!("!{}", e))?.with_file_name("brack");
    let works = |exe: &Path| {
        let mut k = Command::new(exe);
        k.arg("version").env_clear().stdout(Stdio::null()).stderr(Stdio::null()).uid(NOBODY).gid(NOBODY);
        matches!(k.status(), Ok(s) if s.success())
    };
    if works(&exe) {
        return Ok(Guise { user: Some(NOBODY), env, exe });
    }
    let copy = c.dir.join(format!("brack-{}", c.shard));
    if !copy.exists() {
        io(std::fs::copy(&exe, &copy))?;
        io(std::fs::set_permissions(&copy, std::fs::Permissions::from_mode(0o755)))?;
    }
    if works(&copy) {
        return Ok(Guise { user: Some(NOBODY), env, exe: copy });
    }
    Ok(Guise { user: None, env, exe })
}

fn own(root: &Path, user: u32) -> std::io::Result<()> {
    std::os::unix::fs::lchown(root, Some(user), Some(user))?;
    if std::fs::symlink_metadata(root)?.is_dir() {
        for e in std::fs::read_dir(root)? {
            own(&e?.path(), user)?;
        }
    }
    Ok(())
}

struct Secrets {
    words: Vec<String>,
    env: Vec<(String, String)>,
    arguments: Vec<String>,
}

/// What the plugin got hold of, from its own report.
fn judge(c: &mut Case, report: &str, s: &Secrets) -> Check {
    let mut tries = 0;
    for l in report.lines() {
        let mut it = l.splitn(4, ' ');
        let what = it.next().unwrap_or("");
        let data = it.clone().last().unwrap_or("");
        match what {
            "tries" => tries += it.next().and_then(|n| n.parse::<usize>().ok()).unwrap_or(0),
            "refused" => c.count("host calls refused", it.next().and_then(|n| n.parse().ok()).unwrap_or(0)),
            "argument" => ensure!(!s.arguments.iter().any(|a| data.contains(a.as_str())), "the plugin reads the command line: {}", shorten(l, 300)),
            "environment" => {
                for (k, v) in &s.env {
                    ensure!(!data.contains(&format!("{}={}", k, v)) && !(v.len() > 8 && data.contains(v)), "the plugin reads the environment: {}", shorten(l, 300));
                }
            }
            "configuration" => (),
            "" => (),
            _ => return Err(format!("the plugin reaches the host: {}", shorten(l, 400))),
        }
    }
    for w in &s.words {
        ensure!(!report.contains(w.as_str()), "the plugin knows {:?}: {}", w, shorten(report, 400));
    }
    c.count("host calls tried", tries);
    c.count("reports of hostile plugins", 1);
    Ok(())
}

/// Reports in what the program printed or wrote.
fn reports(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = text;
    while let Some(i) = rest.find("R:") {
        rest = &rest[i + 2..];
        let hex: Vec<u8> = rest.bytes().take_while(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(b)).collect();
        if hex.len() >= 16 {
            let v = |b: u8| if b.is_ascii_digit() { b - b'0' } else { b - b'a' + 10 };
            let bytes: Vec<u8> = hex.chunks_exact(2).map(|p| v(p[0]) * 16 + v(p[1])).collect();
            out.push(String::from_utf8_lossy(&bytes).to_string());
        }
        rest = &rest[hex.len()..];
    }
    out
}

const MARK: &str = "ESCAPED-OUTPUT-MARKER";

pub fn c14(c: &mut Case) -> Check {
    let word = |c: &mut Case, what: &str| -> String { format!("{}-{:016x}", what, c.r.next()) };
    let dir = c.dir.join(format!("contain{}", c.shard));
    let _ = std::fs::remove_dir_all(&dir);
    let host = dir.join("host");
    let root = dir.join("project");
    for d in [host.join("sub"), root.join("docs"), root.join("plugins"), dir.join("home"), dir.join("load")] {
        io(std::fs::create_dir_all(d))?;
    }
    let mut words = vec![];
    let mut secret = |c: &mut Case, p: &Path| -> Check {
        let w = word(c, "file");
        io(std::fs::write(p, &w))?;
        words.push(w);
        Ok(())
    };
    for p in [host.join("secret.txt"), host.join("sub/other"), host.join("canary-old"), dir.join("home/.netrc"), root.join("canary-near"), root.join("plugins/canary-beside"), dir.join("load/canary-beside")] {
        secret(c, &p)?;
    }
    io(std::os::unix::fs::symlink(host.join("secret.txt"), host.join("canary-link")))?;
    let stdin_word = word(c, "stdin");
    io(std::fs::write(dir.join("stdin"), &stdin_word))?;
    words.push(stdin_word);
    let listener = io(TcpListener::bind("127.0.0.1:0"))?;
    io(listener.set_nonblocking(true))?;
    let port = io(listener.local_addr())?.port();
    // whoever connects is noticed, and not kept waiting for an answer
    let reached = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let watcher = {
        let reached = std::sync::Arc::downgrade(&reached);
        std::thread::spawn(move || {
            while let Some(reached) = reached.upgrade() {
                if listener.accept().is_ok() {
                    reached.store(true, std::sync::atomic::Ordering::SeqCst);
                }
                drop(reached);
                std::thread::sleep(std::time::Duration::from_millis(2));
            }
            listener
        })
    };

    let mut env: Vec<(String, String)> = vec![
        ("PATH".into(), "/usr/bin:/bin".into()),
        ("HOME".into(), dir.join("home").display().to_string()),
        ("RUST_BACKTRACE".into(), "0".into()),
    ];
    for k in ["BRACK_CANARY", "GITHUB_TOKEN", "USER", "LANG", "secret", "EXTISM_CONFIG"] {
        if c.r.chance(70) {
            env.push((k.into(), word(c, "env")));
        }
    }
    for (k, v) in &env {
        if !["PATH", "HOME", "RUST_BACKTRACE"].contains(&k.as_str()) {
            words.push(v.clone());
        }
    }
    let g = guise(c, env.clone())?;

    // the plugin
    let name = c.r.pick(&["evil", "std", "日本", "a.b", "p"]).to_string();
    let stem = word(c, "doc");
    let role = *c.r.pick(&["inline", "block", "macro", "document", "stmt", "expr", "text", "closer", "net", "net"]);
    let mode = match role {
        "document" | "stmt" | "expr" | "text" => "build",
        "net" => *c.r.pick(&["compile", "build"]),
        _ => *c.r.pick(&["compile", "compile", "build", "server"]),
    };
    let mut plan = String::new();
    if c.r.chance(60) || mode == "server" {
        plan.push('m');
    }
    if c.r.chance(30) {
        plan.push('i');
    }
    // never try to change anything with the powers of root
    if g.user.is_some() {
        plan.push('w');
    } else {
        c.count("cases without attempts to change anything", 1);
    }
    plan.push('|');
    let mut paths: Vec<String> = vec![];
    let abs = |p: &Path| p.display().to_string();
    let mut add = |c: &mut Case, kind: char, p: String| {
        if c.r.chance(80) {
            paths.push(format!("{}{}", kind, p));
        }
    };
    let canaries = [host.join("secret.txt"), host.join("sub/other"), host.join("canary-old"), host.join("canary-link"), root.join("canary-near"), root.join("plugins/canary-beside"), root.join("Brack.toml"), dir.join("home/.netrc"), host.clone(), dir.clone()];
    for p in &canaries {
        let a = abs(p);
        add(c, 'r', a.clone());
        add(c, 'r', a.trim_start_matches('/').to_string());
        let inside = p.strip_prefix(&dir).unwrap_or(p).display().to_string();
        let way = *c.r.pick(&["../", "./", "", "../../", "x/../../"]);
        add(c, 'r', format!("{}{}", way, inside));
        if let Some(n) = p.file_name() {
            add(c, 'r', n.to_string_lossy().to_string());
        }
    }
    for p in ["/", ".", "..", "./..", "../..", "/etc/passwd", "etc/passwd", "/etc", "/proc/self/environ", "proc/self/environ", "/proc/self/cmdline", "/proc/self/fd/0", "/dev/stdin", "docs", "plugins", "Brack.toml", "/tmp", "/data", "/workspace"] {
        add(c, 'r', p.to_string());
    }
    for p in ["canary-old", "canary-new", "canary-near", "host/canary-old", "../host/canary-new", "plugins/canary-beside"] {
        add(c, 'w', p.to_string());
    }
    add(c, 'w', abs(&host.join("canary-old")));
    add(c, 'w', abs(&host.join("canary-new")).trim_start_matches('/').to_string());
    c.r.shuffle(&mut paths);
    while paths.iter().map(|p| p.len() + 1).sum::<usize>() > 3200 {
        paths.pop();
    }
    plan.push_str(&paths.iter().map(|p| format!("{}\0", p)).collect::<String>());
    let mut request = json!({"url": format!("http://{}:{}/canary", c.r.pick(&["127.0.0.1", "localhost"]), port), "method": c.r.pick(&["GET", "POST"]).to_string()});
    if c.r.chance(50) {
        request["headers"] = json!({"x": "y"});
    }
    plan.push_str(&format!("{}\0", request));
    let entry = |command: &str, call: &str, ret: Type| Entry { command: command.into(), call: call.into(), args: vec![], ret };
    let entries = vec![
        entry("inline", "report", Type::TInline),
        entry("block", "report", Type::TBlock),
        entry("macro", "macro", Type::TAST),
        entry("closer", "closer", Type::TInline),
        entry("net", "net", Type::TInline),
        entry("R:$REPORT$", "report", Type::TInline),
        entry("document", "report", Type::TBlock),
        entry("stmt", "report", Type::TBlock),
        entry("expr", "report", Type::TInline),
        entry("text", "report", Type::TInline),
    ];
    let wasm = io(std::fs::read(c.wasm.join("evil.wasm")))?;
    let wasm = patch(wasm, "META", metadata(&entries).as_bytes())?;
    let wasm = patch(wasm, "PLAN", plan.as_bytes())?;

    let backend = "html";
    let mut schema = "schema = \"github\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"v\"\n".to_string();
    if mode == "build" {
        for hook in ["document", "stmt", "expr", "text"] {
            if role == hook {
                schema.push_str(&format!("{}_hook = true\n", hook));
            }
        }
    }
    let parsed: brack_project_manager::plugin::PluginSchema = toml::from_str(&schema).map_err(|e| format!("!{}", e))?;
    io(std::fs::write(root.join("plugins").join(format!("{}_{}.wasm", name, parsed.hash_sha256(backend))), &wasm))?;
    io(std::fs::write(dir.join("load").join(format!("{}_0a.wasm", name)), &wasm))?;
    io(std::fs::write(
        root.join("Brack.toml"),
        format!("[document]\nname = \"x\"\nversion = \"1\"\nbackend = \"{}\"\nauthors = []\n[plugins.\"{}\"]\n{}", backend, name, schema),
    ))?;
    let document = match role {
        "inline" | "closer" | "net" => format!("a [{}.{}] b", name, role),
        "block" => format!("{{{}.block}}", name),
        "macro" => format!("x <{}.macro> y", name),
        _ => "hello".to_string(),
    };
    let doc = root.join("docs").join(format!("{}.[]", stem));
    io(std::fs::write(&doc, &document))?;
    if g.user.is_some() {
        // the way to the case's directory
        for p in [&c.dir, &dir] {
            io(std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)))?;
        }
        io(own(&dir, NOBODY))?;
        io(chown(&dir, Some(NOBODY), Some(NOBODY)))?;
    }
    let before = snapshot(&dir)?;
    let level = if role == "net" || c.r.chance(50) { 5 } else { c.r.below(5) + 1 }.to_string();
    let note = format!("{} {} level {} plan {:?}", mode, role, level, shorten(&plan, 300));
    c.input(&note);
    c.nontrivial(true, fnv(plan.as_bytes()));
    c.count(&format!("attacks during {}", mode), 1);
    c.count(&format!("attacks from {}", role), 1);

    let mut printed = String::new();
    let mut arguments = vec![stem.clone()];
    if mode == "server" {
        let mut s = Session::start_as(&dir, &g)?;
        s.ask(json!("i"), "initialize", json!({"processId": null, "rootUri": null, "capabilities": capabilities(true)}))?;
        let u = uri(&doc);
        for method in ["textDocument/didOpen", "textDocument/didSave"] {
            s.send(&json!({"jsonrpc": "2.0", "method": method, "params": {"textDocument": {"uri": u, "languageId": "brack", "version": 1, "text": ""}}}))?;
        }
        let mut id = 0;
        loop {
            id += 1;
            s.send(&json!({"jsonrpc": "2.0", "id": id, "method": "textDocument/completion", "params": {"textDocument": {"uri": u}, "position": {"line": 0, "character": 0}, "context": {"triggerKind": 2, "triggerCharacter": "["}}}))?;
            let answer = loop {
                let m = s.next("never answers a completion request")?.ok_or("the server ended")?;
                printed.push_str(&m.to_string());
                if m.get("method").is_none() {
                    break m;
                }
            };
            for i in items(&answer).unwrap_or_default() {
                printed.push_str(&i.to_string());
            }
            if id == 3 {
                break;
            }
        }
        for m in &s.log {
            printed.push_str(&m.to_string());
        }
        s.finish()?;
        arguments.push("language-server".into());
    } else {
        let file = doc.display().to_string();
        let load = dir.join("load").display().to_string();
        let args: Vec<&str> = match mode {
            "build" => vec!["build"],
            _ => vec!["compile", "-p", &load, "-b", backend, "-f", &file, "--output-level", if role == "macro" && level != "5" { "4" } else { &level }],
        };
        arguments.extend(args.iter().filter(|a| a.len() > 4).map(|a| a.to_string()));
        let mut k = Command::new("/bin/sh");
        k.arg("-c")
            .arg("ulimit -t 100; ulimit -c 0; exec timeout -s KILL 400 \"$0\" \"$@\"")
            .arg(&g.exe)
            .args(&args)
            .current_dir(if mode == "build" { &root } else { &dir })
            .env_clear()
            .envs(g.env.iter().map(|(a, b)| (a, b)))
            .stdin(io(std::fs::File::open(dir.join("stdin")))?);
        if let Some(u) = g.user {
            k.uid(u).gid(u);
        }
        let out = k.output().map_err(|e| format!("!brack: {}", e))?;
        if out.status.code() == Some(137) || out.status.signal().is_some() {
            ensure!(!reached.load(std::sync::atomic::Ordering::SeqCst), "a plugin reached the network ({})", request);
            return Err(format!("!brack was killed: {:?}", out.status));
        }
        printed.push_str(&String::from_utf8_lossy(&out.stdout));
        let err = String::from_utf8_lossy(&out.stderr);
        let wanted = role != "net";
        if !out.status.success() {
            c.count(if wanted { "programs that refused the plugin" } else { "network attempts that ended the program" }, 1);
            if std::env::var("MONITOR_TALK").is_ok() {
                eprintln!("{} {} {}: {}", mode, role, level, err);
            }
        } else if mode == "build" {
            for e in io(std::fs::read_dir(root.join("out")))? {
                printed.push_str(&String::from_utf8_lossy(&io(std::fs::read(io(e)?.path()))?));
            }
        }
    }
    // what happened to the host
    ensure!(!printed.contains(MARK), "a plugin writes to the program's standard output: {}", shorten(&printed, 300));
    let _ = std::fs::remove_dir_all(dir.join("home/.cache"));
    let mut after = snapshot(&dir)?;
    after.retain(|k, _| !k.starts_with("project/out"));
    let diff = changes(&before, &after);
    ensure!(diff.is_empty(), "the host's files changed: {:?}", diff);
    let mut network = reached.load(std::sync::atomic::Ordering::SeqCst);
    drop(reached);
    let listener = watcher.join().map_err(|_| "!watcher")?;
    match listener.accept() {
        Ok(_) => network = true,
        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => (),
        Err(e) => return Err(format!("!{}", e)),
    }
    ensure!(!network, "a plugin reached the network ({})", request);
    let secrets = Secrets { words, env, arguments };
    for r in reports(&printed) {
        judge(c, &r, &secrets)?;
    }
    // anything else that came out of it
    let shown = printed.replace(&document, "");
    for w in &secrets.words {
        ensure!(!shown.contains(w.as_str()), "{:?} is in the program's output", w);
    }
    debug_assert!(root.as_os_str().as_bytes().len() < 4000);
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}
