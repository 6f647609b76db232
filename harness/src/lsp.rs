//! The language server as a client sees it (C19–C23).
use crate::case::Case;
use crate::cli::io;
use crate::contain::Guise;
use crate::doc;
use crate::ensure;
use crate::front::{front, tok, Check};
use crate::gen::{world, Module, Wishes};
use crate::plug::{metadata, probe, Entry};
use crate::rng::{fnv, Rng};
use crate::robust::hostile;
use crate::text::{arbitrary, shorten, Map};
use brack_plugin::types::Type;
use brack_tokenizer::tokens::LocationData;
use serde_json::{json, Value as Json};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

enum Event {
    Message(Json),
    Bad(String),
    End,
}

pub struct Session {
    child: Child,
    stdin: Option<ChildStdin>,
    events: Receiver<Event>,
    errors: Option<std::thread::JoinHandle<String>>,
    /// everything received, in order
    pub log: Vec<Json>,
}

/// Splits a byte stream into messages, and accepts nothing but well-framed JSON-RPC.
fn frames(mut input: impl Read, send: impl Fn(Event) -> bool) {
    let mut buffer: Vec<u8> = vec![];
    let mut chunk = [0u8; 4096];
    loop {
        loop {
            let head = match buffer.windows(4).position(|w| w == b"\r\n\r\n") {
                Some(n) => n,
                None => {
                    if buffer.len() > 4096 {
                        send(Event::Bad(format!("no header in {:?}", shorten(&String::from_utf8_lossy(&buffer), 200))));
                        return;
                    }
                    break;
                }
            };
            let header = String::from_utf8_lossy(&buffer[..head]).to_string();
            let mut length = None;
            for line in header.split("\r\n") {
                match line.split_once(": ") {
                    Some(("Content-Length", n)) if n.bytes().all(|b| b.is_ascii_digit()) => length = n.parse::<usize>().ok(),
                    Some(("Content-Type", _)) => (),
                    _ => {
                        send(Event::Bad(format!("not a header: {:?}", shorten(&header, 200))));
                        return;
                    }
                }
            }
            let length = match length {
                Some(n) => n,
                None => {
                    send(Event::Bad(format!("no length in {:?}", header)));
                    return;
                }
            };
            if buffer.len() < head + 4 + length {
                break;
            }
            let body: Vec<u8> = buffer.drain(..head + 4 + length).skip(head + 4).collect();
            let event = match serde_json::from_slice::<Json>(&body) {
                Ok(v) => match sound(&v) {
                    Ok(()) => Event::Message(v),
                    Err(m) => Event::Bad(m),
                },
                Err(e) => Event::Bad(format!("not JSON ({}): {:?}", e, shorten(&String::from_utf8_lossy(&body), 200))),
            };
            if !send(event) {
                return;
            }
        }
        match input.read(&mut chunk) {
            Ok(0) | Err(_) => {
                if !buffer.is_empty() {
                    send(Event::Bad(format!("the output ends inside a message: {:?}", shorten(&String::from_utf8_lossy(&buffer), 200))));
                }
                send(Event::End);
                return;
            }
            Ok(n) => buffer.extend_from_slice(&chunk[..n]),
        }
    }
}

fn sound(v: &Json) -> Result<(), String> {
    let o = v.as_object().ok_or(format!("not an object: {}", v))?;
    ensure!(o.get("jsonrpc") == Some(&json!("2.0")), "not JSON-RPC 2.0: {}", v);
    if let Some(m) = o.get("method") {
        ensure!(m.is_string() && !o.contains_key("result") && !o.contains_key("error"), "neither request nor response: {}", v);
        return Ok(());
    }
    let id = o.get("id").ok_or(format!("a response without an id: {}", v))?;
    ensure!(id.is_string() || id.is_number() || id.is_null(), "a response with an odd id: {}", v);
    ensure!(o.contains_key("result") != o.contains_key("error"), "a response needs a result or an error: {}", v);
    if let Some(e) = o.get("error") {
        ensure!(
            e.get("code").map(|c| c.is_i64() || c.is_u64()).unwrap_or(false) && e.get("message").map(|m| m.is_string()).unwrap_or(false),
            "not an error object: {}",
            v
        );
    }
    Ok(())
}

impl Session {
    pub fn start(c: &Case, cwd: &Path) -> Result<Session, String> {
        let exe = std::env::current_exe().map_err(|e| format!("!{}", e))?.with_file_name("brack");
        let home = c.dir.join("home").display().to_string();
        let env = [("PATH", "/usr/bin:/bin"), ("HOME", &home), ("RUST_BACKTRACE", "0"), ("LANG", "C.UTF-8")];
        let env = env.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        Session::start_as(cwd, &Guise { user: None, env, exe })
    }

    pub fn start_as(cwd: &Path, guise: &Guise) -> Result<Session, String> {
        let mut command = Command::new("/bin/sh");
        command
            .arg("-c")
            .arg("ulimit -t 200; ulimit -c 0; exec \"$0\" language-server")
            .arg(&guise.exe)
            .current_dir(cwd)
            .env_clear()
            .envs(guise.env.iter().map(|(a, b)| (a, b)))
            // downloads are refused at once
            .env("HTTPS_PROXY", "http://127.0.0.1:9")
            .env("https_proxy", "http://127.0.0.1:9")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        if let Some(user) = guise.user {
            command.uid(user).gid(user);
        }
        let mut child = io(command.spawn())?;
        let stdin = child.stdin.take();
        let stdout = child.stdout.take().ok_or("!stdout")?;
        let mut stderr = child.stderr.take().ok_or("!stderr")?;
        let (tx, events) = channel();
        std::thread::spawn(move || frames(stdout, |e| tx.send(e).is_ok()));
        let errors = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = stderr.read_to_end(&mut v);
            String::from_utf8_lossy(&v).to_string()
        });
        Ok(Session { child, stdin, events, errors: Some(errors), log: vec![] })
    }

    pub fn pid(&self) -> u32 {
        self.child.id()
    }

    fn unread(&self) -> usize {
        let mut n: libc::c_int = 0;
        match &self.stdin {
            // SAFETY: the descriptor is open, and FIONREAD writes one int
            Some(s) => unsafe {
                libc::ioctl(s.as_raw_fd(), libc::FIONREAD, &mut n);
                n as usize
            },
            None => 0,
        }
    }

    /// Some(true): every thread sleeps. None: the process is gone.
    fn asleep(&self) -> Option<(bool, u64)> {
        let root = format!("/proc/{}/task", self.child.id());
        let mut cpu = 0;
        let mut all = true;
        for e in std::fs::read_dir(root).ok()? {
            let stat = std::fs::read_to_string(e.ok()?.path().join("stat")).unwrap_or_default();
            let rest = stat.rsplit(')').next().unwrap_or("").to_string();
            let f: Vec<&str> = rest.split_whitespace().collect();
            if f.first() == Some(&"Z") {
                return None;
            }
            all &= f.first() == Some(&"S");
            cpu += f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        }
        Some((all, cpu))
    }

    /// Writes bytes; with `wait`, the server has read them when this returns.
    pub fn write(&mut self, bytes: &[u8], wait: bool) -> Check {
        let pipe = self.stdin.as_mut().ok_or("!no stdin")?;
        if pipe.write_all(bytes).and_then(|_| pipe.flush()).is_err() {
            return Err(format!("the server is gone: {}", self.post_mortem()));
        }
        if wait {
            let from = Instant::now();
            let mut spins = 0;
            while self.unread() > 0 {
                spins += 1;
                if spins > 200 {
                    std::thread::sleep(Duration::from_micros(200));
                }
                if from.elapsed() > Duration::from_secs(30) {
                    return self.stuck("does not read its input");
                }
            }
        }
        Ok(())
    }

    fn post_mortem(&mut self) -> String {
        self.stdin = None;
        let _ = self.child.kill();
        let status = self.child.wait();
        let err = self.errors.take().and_then(|h| h.join().ok()).unwrap_or_default();
        format!("{:?} {}", status, shorten(&err, 600))
    }

    /// Nothing came for a long time: is anything ever going to come?
    fn stuck(&mut self, what: &str) -> Check {
        let mut calm = 0;
        let mut last = None;
        for _ in 0..240 {
            std::thread::sleep(Duration::from_millis(500));
            match self.asleep() {
                None => return Err(format!("the server ended: {}", self.post_mortem())),
                Some((true, cpu)) if last == Some(cpu) => calm += 1,
                Some((_, cpu)) => {
                    calm = 0;
                    last = Some(cpu);
                }
            }
            if calm >= 12 {
                return Err(format!("the server {} (all of its threads sleep)", what));
            }
        }
        Err("!the server is still busy".to_string())
    }

    /// The next message of the server other than log messages; None at its end.
    pub fn next(&mut self, what: &str) -> Result<Option<Json>, String> {
        loop {
            let event = match self.events.recv_timeout(Duration::from_secs(10)) {
                Ok(e) => e,
                Err(RecvTimeoutError::Disconnected) => Event::End,
                Err(RecvTimeoutError::Timeout) => {
                    let verdict = self.stuck(what);
                    match self.events.recv_timeout(Duration::from_secs(1)) {
                        Ok(e) => e,
                        Err(_) => return verdict.map(|_| None),
                    }
                }
            };
            match event {
                Event::End => return Ok(None),
                Event::Bad(m) => return Err(format!("standard output is not well-framed JSON-RPC: {}", m)),
                Event::Message(m) => {
                    let quiet = matches!(m["method"].as_str(), Some("window/logMessage"));
                    self.log.push(m.clone());
                    if !quiet {
                        return Ok(Some(m));
                    }
                }
            }
        }
    }

    pub fn send(&mut self, m: &Json) -> Check {
        let b = frame(m.to_string().as_bytes(), 0);
        self.write(&b, false)
    }

    /// Sends a request and takes its answer.
    pub fn ask(&mut self, id: Json, method: &str, params: Json) -> Result<Json, String> {
        self.send(&json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}))?;
        let answer = self.next(&format!("never answers {}", method))?.ok_or_else(|| format!("the server ended before answering {}: {}", method, self.post_mortem()))?;
        ensure!(answer.get("id") == Some(&id), "{} with id {} is answered by {}", method, id, answer);
        Ok(answer)
    }

    /// Ends the input; the server has to end by itself, successfully, with nothing more to say.
    pub fn finish(&mut self) -> Check {
        self.stdin = None;
        if let Some(m) = self.next("does not end at the end of its input")? {
            return Err(format!("one message too many: {}", shorten(&m.to_string(), 400)));
        }
        let from = Instant::now();
        loop {
            match self.child.try_wait() {
                Ok(Some(s)) => {
                    let err = self.errors.take().and_then(|h| h.join().ok()).unwrap_or_default();
                    if s.code() != Some(0) {
                        return Err(format!("the server ends with {:?}: {}", s, shorten(&err, 500)));
                    }
                    ensure!(!err.contains("panicked"), "the server panicked: {}", shorten(&err, 500));
                    return Ok(());
                }
                Ok(None) if from.elapsed() > Duration::from_secs(60) => return self.stuck("does not end at the end of its input"),
                Ok(None) => std::thread::sleep(Duration::from_millis(1)),
                Err(e) => return Err(format!("!{}", e)),
            }
        }
    }
}

impl Drop for Session {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// A message on the wire; `style` picks the header fields and their order.
pub fn frame(body: &[u8], style: usize) -> Vec<u8> {
    let n = body.len();
    let t = "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n";
    let mut v = match style {
        1 => format!("Content-Length: {}\r\n{}\r\n", n, t),
        2 => format!("{}Content-Length: {}\r\n\r\n", t, n),
        _ => format!("Content-Length: {}\r\n\r\n", n),
    }
    .into_bytes();
    v.extend_from_slice(body);
    v
}

pub fn uri(path: &Path) -> String {
    use std::os::unix::ffi::OsStrExt;
    let mut s = String::from("file://");
    for b in path.as_os_str().as_bytes() {
        match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' | b'/' => s.push(*b as char),
            b => s.push_str(&format!("%{:02X}", b)),
        }
    }
    s
}

pub fn fresh(c: &Case, name: &str) -> Result<PathBuf, String> {
    let p = c.dir.join(format!("{}{}", name, c.shard));
    let _ = std::fs::remove_dir_all(&p);
    io(std::fs::create_dir_all(&p))?;
    Ok(p)
}

pub fn capabilities(publish: bool) -> Json {
    if publish {
        json!({"textDocument": {"publishDiagnostics": {"relatedInformation": true}}})
    } else {
        json!({"textDocument": {"synchronization": {"didSave": true}}})
    }
}

/// What one message from the client has to bring about.
#[derive(Clone, Debug)]
enum Effect {
    Answer(Json),
    Publish(String),
    /// an answer to nobody in particular may come
    Perhaps,
    Nothing,
}

fn matches(effect: &Effect, got: &Json) -> bool {
    match effect {
        Effect::Answer(id) => got.get("method").is_none() && got.get("id") == Some(id),
        Effect::Publish(u) => got["method"] == "textDocument/publishDiagnostics" && got["params"]["uri"] == **u,
        _ => false,
    }
}

/// Is this an error that belongs to no request?
fn stray(got: &Json) -> bool {
    got.get("method").is_none() && got.get("id") == Some(&Json::Null) && got.get("error").is_some()
}

pub fn c19(c: &mut Case) -> Check {
    let dir = fresh(c, "lsp")?;
    // documents the messages talk about
    let mut docs = vec![];
    for i in 0..2 {
        let name = format!("{}{}.[]", i, c.r.pick(&["d", "é", "👨‍👩‍👧", "日本"]));
        let text = if c.r.chance(50) { doc::well_formed(&mut c.r).1.text } else { "[a b".to_string() };
        io(std::fs::write(dir.join(&name), &text))?;
        docs.push(dir.join(&name));
    }
    let publish = c.r.chance(80);
    let mut wire: Vec<(Vec<u8>, Vec<Effect>)> = vec![];
    let mut next = 0u64;
    let n = c.r.range(2, 14);
    let headers = c.r.chance(50);
    for k in 0..n + 1 {
        next += 1;
        let id = if c.r.chance(50) { json!(next * 7) } else { json!(format!("é{}", next)) };
        let filler = |r: &mut Rng| -> String {
            let piece = *r.pick(&["x", "é", "日本", "👨‍👩‍👧", "\\", "\"", "\r\n\r\n", "Content-Length: 5\r\n\r\n{}", "\u{0}", " "]);
            // where a limit could hide
            let n = if r.chance(3) { *r.pick(&[5_000usize, 70_000, 140_000]) } else { *r.pick(&[0usize, 1, 3, 30, 300]) };
            piece.repeat(n)
        };
        let (m, e) = if k == 0 {
            (json!({"jsonrpc": "2.0", "id": id, "method": "initialize", "params": {"processId": null, "rootUri": null, "capabilities": capabilities(publish)}}), vec![Effect::Answer(id)])
        } else {
            match c.r.below(8) {
                0 => (json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}), vec![]),
                1 => (json!({"jsonrpc": "2.0", "method": format!("$/{}", filler(&mut c.r)), "params": {}}), vec![]),
                2 | 3 => {
                    let u = uri(&docs[c.r.below(2)]);
                    let e = if publish { vec![Effect::Publish(u.clone())] } else { vec![] };
                    (json!({"jsonrpc": "2.0", "method": "textDocument/didSave", "params": {"textDocument": {"uri": u}, "text": filler(&mut c.r)}}), e)
                }
                4 => {
                    let u = uri(&docs[c.r.below(2)]);
                    (json!({"jsonrpc": "2.0", "id": id, "method": "textDocument/semanticTokens/full", "params": {"textDocument": {"uri": u}}}), vec![Effect::Answer(id)])
                }
                5 => {
                    let u = uri(&docs[c.r.below(2)]);
                    (json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": u, "version": 1}, "contentChanges": [{"text": filler(&mut c.r)}]}}), vec![])
                }
                _ => (json!({"jsonrpc": "2.0", "id": id, "method": "brack/unknown", "params": {"text": filler(&mut c.r)}}), vec![Effect::Answer(id)]),
            }
        };
        let style = if headers { c.r.below(3) } else { 0 };
        let mut body = m.to_string().into_bytes();
        if c.r.chance(15) {
            // characters as they are or as escapes make no difference, nor does white space
            body = serde_json::to_string_pretty(&m).unwrap_or_default().into_bytes();
        }
        // sometimes the bytes so far end exactly where a read buffer does
        let so_far: usize = wire.iter().map(|w| w.0.len()).sum();
        let unit = *c.r.pick(&[1024usize, 1024, 4096, 8192, 512]);
        if c.r.chance(25) && body.len() < 20_000 {
            for pad in 0..unit + 8 {
                let mut b = body.clone();
                b.extend(std::iter::repeat_n(b' ', pad));
                if (so_far + frame(&b, style).len()) % unit == 0 {
                    body = b;
                    break;
                }
            }
        }
        wire.push((frame(&body, style), e));
    }
    let bytes: Vec<u8> = wire.iter().flat_map(|w| w.0.clone()).collect();
    // ends of the messages
    let mut ends = vec![];
    let mut at = 0;
    for w in &wire {
        at += w.0.len();
        ends.push(at);
    }
    let mode = c.r.below(7);
    let mut cuts: Vec<usize> = match mode {
        0 => vec![],
        1 if bytes.len() < 6000 => (1..bytes.len()).collect(),
        2 => ends.clone(),
        3 => {
            // in the middle of headers and characters
            let mut v = vec![];
            for (i, e) in ends.iter().enumerate() {
                let start = e - wire[i].0.len();
                for k in [start + 1, start + 8, start + 15, start + 16, start + 17, start + 18, start + 19, start + 20, start + 21] {
                    if c.r.chance(40) && k < *e {
                        v.push(k);
                    }
                }
                if c.r.chance(50) {
                    v.push(e - 1);
                }
            }
            for (i, b) in bytes.iter().enumerate() {
                if *b & 0xc0 == 0x80 && c.r.chance(10) {
                    v.push(i);
                }
                if (*b == b'\n' || *b == b'\r') && c.r.chance(30) {
                    v.push(i);
                }
            }
            v
        }
        4 => {
            // each chunk: the end of one message, and the beginning of another one
            ends.iter().map(|e| e + c.r.range(0, 40)).collect()
        }
        _ => (0..c.r.range(1, 12)).map(|_| c.r.below(bytes.len() + 1)).collect(),
    };
    while cuts.len() > 6000 {
        cuts = cuts.into_iter().step_by(3).collect();
    }
    // at some message ends nothing more is sent until everything due has arrived
    let mut pauses: Vec<usize> = vec![];
    for e in &ends {
        if c.r.chance(if mode == 0 { 0 } else { 50 }) {
            pauses.push(*e);
        }
    }
    pauses.push(bytes.len());
    cuts.extend(&pauses);
    cuts.push(bytes.len());
    cuts.retain(|k| *k > 0 && *k <= bytes.len());
    cuts.sort();
    cuts.dedup();
    c.input(&format!("chunks ending at {:?}, answers awaited at {:?}\n{}", cuts, pauses, String::from_utf8_lossy(&bytes)));
    c.nontrivial(cuts.len() > 1, fnv(format!("{:?}{:?}", cuts, bytes).as_bytes()));
    let mut s = Session::start(c, &dir)?;
    let mut from = 0;
    let mut due: Vec<Effect> = vec![];
    let mut done = 0;
    for cut in cuts {
        s.write(&bytes[from..cut], true)?;
        c.count("chunks", 1);
        from = cut;
        while done < ends.len() && ends[done] <= cut {
            due.extend(wire[done].1.clone());
            done += 1;
        }
        if pauses.contains(&cut) {
            for e in due.drain(..) {
                let got = s.next(&format!("does not react to a message that has arrived ({:?}) after {} of {} bytes", e, cut, bytes.len()))?;
                let got = got.ok_or_else(|| format!("the server ended: {}", s.post_mortem()))?;
                ensure!(matches(&e, &got), "{:?} is due, but {} comes", e, shorten(&got.to_string(), 300));
                c.count("reactions in order", 1);
            }
        }
    }
    // sometimes the input ends inside a message
    if c.r.chance(30) {
        let tail = frame(br#"{"jsonrpc":"2.0","id":"never","method":"initialize","params":{}}"#, 0);
        let n = c.r.below(tail.len());
        s.write(&tail[..n], false)?;
    }
    s.finish()?;
    c.count("sessions", 1);
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

/// A project directory below `at`, its plugins fetched already.
pub fn lsp_project(c: &mut Case, at: &Path, modules: &[Module]) -> Check {
    io(std::fs::create_dir_all(at.join("docs")))?;
    io(std::fs::create_dir_all(at.join("plugins")))?;
    let backend = "html";
    let mut toml = format!("[document]\nname = \"x\"\nversion = \"1\"\nbackend = \"{}\"\nauthors = []\n[plugins]\n", backend);
    for m in modules {
        let mut entry = format!("schema = \"github\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"v{}\"\n", c.r.below(1 << 40));
        for (which, on) in [("document_hook", m.flag.document_hook), ("stmt_hook", m.flag.stmt_hook), ("expr_hook", m.flag.expr_hook), ("text_hook", m.flag.text_hook)] {
            if on {
                entry.push_str(&format!("{} = true\n", which));
            }
        }
        let schema: brack_project_manager::plugin::PluginSchema = toml::from_str(&entry).map_err(|e| format!("!{}", e))?;
        let file = at.join("plugins").join(format!("{}_{}.wasm", m.name, schema.hash_sha256(backend)));
        io(std::fs::write(file, probe(&c.wasm, &metadata(&m.entries))?))?;
        toml.push_str(&format!("[plugins.{}]\n{}", serde_json::to_string(&m.name).unwrap_or_default().replace('\u{7f}', "\\u007f"), entry));
    }
    io(std::fs::write(at.join("Brack.toml"), toml))
}

pub fn c20(c: &mut Case) -> Check {
    let dir = fresh(c, "lsp")?;
    let modules = world(c, &Wishes { hooks: true, macros: true, failing: false, pure: true });
    lsp_project(c, &dir.join("good"), &modules)?;
    // projects that cannot be used
    lsp_project(c, &dir.join("missing"), &[])?;
    io(std::fs::write(
        dir.join("missing/Brack.toml"),
        "[document]\nname = \"x\"\nversion = \"1\"\nbackend = \"html\"\nauthors = []\n[plugins.gone]\nschema = \"github\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"v\"\n",
    ))?;
    lsp_project(c, &dir.join("broken"), &modules)?;
    for e in io(std::fs::read_dir(dir.join("broken/plugins")))? {
        io(std::fs::write(io(e)?.path(), "not a plugin"))?;
    }
    lsp_project(c, &dir.join("rubbish"), &[])?;
    io(std::fs::write(dir.join("rubbish/Brack.toml"), "[document"))?;
    let mut files: Vec<PathBuf> = vec![];
    for p in ["good", "missing", "broken", "rubbish"] {
        let f = dir.join(p).join("docs/main.[]");
        let text = hostile(&mut c.r, &modules, false);
        io(std::fs::write(&f, text))?;
        files.push(f);
    }
    for (name, bytes) in [("latin1.[]", b"\xe9\xff[a.b".to_vec()), ("empty.[]", vec![]), ("nul.[]", b"\0[a.b \0]".to_vec())] {
        io(std::fs::write(dir.join(name), bytes))?;
        files.push(dir.join(name));
    }
    files.push(dir.join("does-not-exist.[]"));
    files.push(dir.clone());
    files.push(PathBuf::from("/"));
    files.push(PathBuf::from("/x"));
    files.push(dir.join("good/docs/main.[]/below-a-file"));

    let count = c.r.range(4, 30);
    let mut wire: Vec<(Vec<u8>, Effect)> = vec![];
    for k in 0..count {
        let id = match c.r.below(8) {
            0 => json!(format!("id-{}", k)),
            1 => json!(format!("{}", k)),
            2 => json!(format!("\"é👨‍👩‍👧\u{0}{}", k)),
            3 => json!(-(k as i64) - 1),
            4 => json!(u64::MAX - k as u64),
            5 => json!(i64::MIN + k as i64),
            6 => json!(k as u64 * 1_000_003),
            _ => json!(k),
        };
        let target = match c.r.below(10) {
            0 => json!(c.r.pick(&["untitled:Untitled-1", "http://example.com/a.[]", "file://host/a.[]", "file:", "", "a", "file:///%FF%FE.[]", "file:///", "data:text/plain,x", "file:///a%00b"])),
            1 => json!(c.r.pick(&[1, 0])),
            _ => json!(uri(c.r.pick(&files))),
        };
        let odd = |r: &mut Rng| -> Json {
            r.pick(&[json!(null), json!([]), json!({}), json!("x"), json!(1), json!(true), json!([1, 2]), json!({"textDocument": null}), json!({"textDocument": {}}), json!({"textDocument": {"uri": 5}}), json!({"position": -1})])
                .clone()
        };
        let place = json!({"line": c.r.pick(&[0u32, 1, u32::MAX]), "character": c.r.pick(&[0u32, 7, u32::MAX])});
        let trigger = c.r.pick(&["[", "{", "<", " ", ".", "x", ""]).to_string();
        let (method, params): (&str, Json) = match c.r.below(14) {
            0 => ("initialize", json!({"processId": null, "rootUri": null, "capabilities": capabilities(c.r.chance(70))})),
            1 | 2 => ("textDocument/semanticTokens/full", json!({"textDocument": {"uri": target}})),
            3 | 4 => ("textDocument/completion", json!({"textDocument": {"uri": target}, "position": place, "context": {"triggerKind": 2, "triggerCharacter": trigger}})),
            5 => ("textDocument/completion", json!({"textDocument": {"uri": target}, "position": place})),
            6 => ("textDocument/completion", json!({"textDocument": {"uri": target}, "position": place, "context": {"triggerKind": 1}})),
            7 => ("shutdown", json!(null)),
            8 => ("textDocument/hover", json!({"textDocument": {"uri": target}, "position": place})),
            9 => ("", json!({})),
            10 => ("textDocument/semanticTokens/full", odd(&mut c.r)),
            11 => ("textDocument/completion", odd(&mut c.r)),
            12 => ("initialize", odd(&mut c.r)),
            _ => (
                c.r.pick(&[
                    "no/such/method", "$/x", "$/cancelRequest", "$/setTrace", "$", "textDocument/didOpen", "textDocument/didSave", "initialized", "Initialize", "initialize ",
                    "textDocument/completion/resolve", "completionItem/resolve", "textDocument/semanticTokens", "textDocument/semanticTokens/full/delta", "window/logMessage",
                    "textDocument/publishDiagnostics", "workspace/symbol", "日本", "\0",
                ]),
                odd(&mut c.r),
            ),
        };
        let version = c.r.chance(90);
        let (m, e): (Vec<u8>, Effect) = match c.r.below(20) {
            0..=8 => {
                let mut m = json!({"id": id, "method": method, "params": params});
                if version {
                    m["jsonrpc"] = json!("2.0");
                }
                if c.r.chance(8) {
                    m.as_object_mut().map(|o| o.remove("params"));
                }
                (m.to_string().into_bytes(), Effect::Answer(id))
            }
            9..=14 => {
                let text = if c.r.chance(50) { arbitrary(&mut c.r, 30) } else { String::new() };
                let (method, params) = match c.r.below(10) {
                    0..=3 => ("textDocument/didOpen", json!({"textDocument": {"uri": target, "languageId": "brack", "version": 1, "text": text}})),
                    4 | 5 => ("textDocument/didSave", json!({"textDocument": {"uri": target}})),
                    6 => ("textDocument/didChange", json!({"textDocument": {"uri": target, "version": 2}, "contentChanges": [{"text": text}]})),
                    7 => ("initialized", json!({})),
                    8 => (*c.r.pick(&["textDocument/didOpen", "textDocument/didSave", "textDocument/didChange", "initialized"]), odd(&mut c.r)),
                    _ => (*c.r.pick(&["$/cancelRequest", "$/setTrace", "$/x", "textDocument/didClose", "workspace/didChangeConfiguration", "x", "shutdown", "initialize", "textDocument/completion", "textDocument/semanticTokens/full"]), odd(&mut c.r)),
                };
                let mut m = json!({"jsonrpc": "2.0", "method": method, "params": params});
                if c.r.chance(8) {
                    m.as_object_mut().map(|o| o.remove("params"));
                }
                (m.to_string().into_bytes(), Effect::Nothing)
            }
            15 | 16 => {
                // not JSON
                let m: Vec<u8> = c
                    .r
                    .pick(&[&b"{"[..], b"", b"}", b"nonsense", b"{\"id\": 1, \"method\": }", b"\xff\xfe", b"{\"jsonrpc\": \"2.0\" \"id\": 1}", b"\"unterminated", b"[1, 2", b"\xef\xbb\xbf{}", b"{\"a\":\"\xe9\"}"])
                    .to_vec();
                (m, Effect::Perhaps)
            }
            17 => {
                // JSON, but no message
                let m = c
                    .r
                    .pick(&[json!(null), json!(1), json!("x"), json!([]), json!({}), json!({"id": null}), json!({"id": [], "method": "initialize"}), json!({"id": {}, "method": 1}), json!({"id": true}), json!({"method": 5}), json!({"params": {}})])
                    .to_string();
                (m.into_bytes(), Effect::Perhaps)
            }
            18 => {
                // an answer of the client
                let m = c.r.pick(&[json!({"jsonrpc": "2.0", "id": 1, "result": null}), json!({"jsonrpc": "2.0", "id": "a", "result": {}}), json!({"jsonrpc": "2.0", "id": 5, "error": {"code": 1, "message": "x"}})]).to_string();
                (m.into_bytes(), Effect::Nothing)
            }
            _ => {
                let m = json!({"jsonrpc": "2.0", "id": id, "method": "no/such/method", "params": {"text": "é".repeat(c.r.range(1000, 200_000))}});
                (m.to_string().into_bytes(), Effect::Answer(id))
            }
        };
        wire.push((m, e));
    }
    let mut shown = String::new();
    for (m, e) in &wire {
        shown.push_str(&format!("{} => {}\n", shorten(&String::from_utf8_lossy(m), 300), shorten(&format!("{:?}", e), 60)));
    }
    c.input(&shown);
    c.nontrivial(true, fnv(shown.as_bytes()));
    let mut s = Session::start(c, &dir)?;
    let wait_each = c.r.chance(60);
    let mut pending: Vec<(usize, Json)> = vec![];
    let mut stray_allowed = 0;
    let mut answered = 0;
    for (k, (m, e)) in wire.iter().enumerate() {
        s.write(&frame(m, 0), false)?;
        match e {
            Effect::Answer(id) => pending.push((k, id.clone())),
            Effect::Perhaps => stray_allowed += 1,
            _ => (),
        }
        if wait_each || k + 1 == wire.len() {
            for (k, id) in pending.drain(..) {
                loop {
                    let about = shorten(&String::from_utf8_lossy(&wire[k].0), 200);
                    let got = s.next(&format!("never answers {}", about))?;
                    let got = got.ok_or_else(|| format!("the server ended before answering {}: {}", about, s.post_mortem()))?;
                    if got.get("method").is_some() {
                        ensure!(got.get("id").is_none(), "the server asks {}", shorten(&got.to_string(), 200));
                        continue;
                    }
                    if stray(&got) {
                        ensure!(stray_allowed > 0, "an error for nobody: {} (after {})", got, about);
                        stray_allowed -= 1;
                        continue;
                    }
                    ensure!(got.get("id") == Some(&id), "the answer to {} is {}", about, shorten(&got.to_string(), 300));
                    answered += 1;
                    break;
                }
            }
        }
    }
    // whatever is left says nothing about any request
    s.stdin = None;
    while let Some(got) = s.next("does not end at the end of its input")? {
        if got.get("method").is_some() {
            continue;
        }
        ensure!(stray(&got) && stray_allowed > 0, "one answer too many: {}", shorten(&got.to_string(), 300));
        stray_allowed -= 1;
    }
    s.finish()?;
    c.count("requests answered", answered);
    c.count("messages", wire.len());
    c.count("sessions", 1);
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

/// Column of a position in UTF-16 units. None: inside or after a line break.
fn utf16(text: &str, map: &Map, line: usize, column: usize) -> Option<usize> {
    let at = map.offset(line, column)?;
    let from = map.offset(line, 0)?;
    Some(text[from..at].encode_utf16().count())
}

pub fn lsp_text(c: &mut Case) -> String {
    // now and then something long: many lines, many tokens, many faults, wide lines
    if c.r.chance(5) {
        let some: Vec<&str> = (0..c.r.range(1, 4))
            .map(|_| *c.r.pick(&["[a.b c] ", "[a.b c,,d]\n", "[a b]", "{x.y \\q}\n\n", "[.😀 e]", "日本語 ", "<m.n\n>", "[a.b [a.b c,],]", "\\.", "[a.😀 x.y]\r\n"]))
            .collect();
        let n = *c.r.pick(&[40usize, 70, 110, 140, 260, 520]);
        return (0..n).map(|_| *c.r.pick(&some)).collect();
    }
    match c.r.below(10) {
        0..=3 => doc::well_formed(&mut c.r).1.text,
        4 => format!("{}{}", doc::well_formed(&mut c.r).1.text, c.r.pick(&["[a.b c", "[a b]", "[.b]", "\n[a.b c,, d]", "\\x", "[a. c]", "]", "\n]\n"])),
        5 => {
            let mut s = String::new();
            for _ in 0..c.r.range(1, 6) {
                s.push_str(c.r.pick(&["[😀.日 é👨‍👩‍👧, x]", "e\u{301}", "😀", "\n", "\r\n", "[a b]", "{𝔘.𝔘 😀\\,", "\\😀", "<🇯🇵.x\r\n>", " "]));
            }
            s
        }
        _ => arbitrary(&mut c.r, 50),
    }
}

pub fn c21(c: &mut Case) -> Check {
    let dir = fresh(c, "lsp")?;
    let mut s = Session::start(c, &dir)?;
    let hello = s.ask(json!(0), "initialize", json!({"processId": null, "rootUri": null, "capabilities": {}}))?;
    let legend: Vec<String> = hello["result"]["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"]
        .as_array()
        .ok_or("no legend of token types is advertised")?
        .iter()
        .map(|v| v.as_str().unwrap_or("").to_string())
        .collect();
    let entry = |name: &str| legend.iter().position(|l| l == name).ok_or(format!("{} is not advertised: {:?}", name, legend));
    let kinds: HashMap<&str, usize> = [
        ("module", entry("namespace")?),
        ("ident", entry("variable")?),
        ("square", entry("function")?),
        ("curly", entry("method")?),
        ("angle", entry("macro")?),
    ]
    .into();
    let mut paths: Vec<PathBuf> = vec![];
    for k in 0..20u64 {
        let text = lsp_text(c);
        // a new file, or an earlier one with something else in it now
        let path = if !paths.is_empty() && c.r.chance(40) {
            c.r.pick(&paths).clone()
        } else {
            dir.join(format!("{}{}.[]", c.r.pick(&["d", "é f", "%41", "#a?"]), k))
        };
        paths.push(path.clone());
        io(std::fs::write(&path, &text))?;
        c.input(&text);
        for _ in 0..c.r.below(3) {
            let shown = if c.r.chance(50) { json!("[some.thing {else.😀 x}]") } else { json!(lsp_text(c)) };
            let u = uri(c.r.pick(&paths));
            let (method, params) = match c.r.below(4) {
                0 => ("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "brack", "version": 1, "text": shown}})),
                1 => ("textDocument/didChange", json!({"textDocument": {"uri": u, "version": k}, "contentChanges": [{"text": shown}]})),
                2 => ("textDocument/didClose", json!({"textDocument": {"uri": u}})),
                _ => ("textDocument/didSave", json!({"textDocument": {"uri": u}, "text": shown})),
            };
            s.send(&json!({"jsonrpc": "2.0", "method": method, "params": params}))?;
        }
        // what the client has in its editor does not matter: the file does (this server synchronises nothing)
        let answer = s.ask(json!(k + 1), "textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri(&path)}}))?;
        let data: Vec<u64> = answer["result"]["data"]
            .as_array()
            .ok_or(format!("no semantic tokens: {}", shorten(&answer.to_string(), 300)))?
            .iter()
            .map(|v| v.as_u64().unwrap_or(u64::MAX))
            .collect();
        ensure!(data.len() % 5 == 0 && !data.contains(&u64::MAX), "not a sequence of semantic tokens");
        let map = Map::new(&text);
        let tokens = brack_tokenizer::tokenize::tokenize_str(&text).map_err(|e| format!("!{:#}", e))?;
        let mut want = vec![];
        let mut soft = std::collections::HashSet::new();
        for t in &tokens {
            let l = t.get_location();
            let from = utf16(&text, &map, l.start.line, l.start.character);
            match (tok(t), from) {
                (Some(doc::Tok::NewLine), Some(from)) | (Some(doc::Tok::Eof), Some(from)) => {
                    soft.insert((l.start.line as u64, from as u64));
                }
                (None, _) => (),
                (Some(k), Some(from)) => {
                    let to = utf16(&text, &map, l.end.line, l.end.character).ok_or("!a token ends nowhere")?;
                    let kind = match k {
                        doc::Tok::Module(_) => Some("module"),
                        doc::Tok::Ident(_) => Some("ident"),
                        doc::Tok::Open(doc::Kind::Square) | doc::Tok::Close(doc::Kind::Square) => Some("square"),
                        doc::Tok::Open(doc::Kind::Curly) | doc::Tok::Close(doc::Kind::Curly) => Some("curly"),
                        doc::Tok::Open(doc::Kind::Angle) | doc::Tok::Close(doc::Kind::Angle) => Some("angle"),
                        _ => None,
                    };
                    want.push((l.start.line as u64, from as u64, (to - from) as u64, kind));
                }
                (Some(_), None) => return Err("!a token starts nowhere".into()),
            }
        }
        let (mut line, mut column, mut last_end) = (0u64, 0u64, 0u64);
        let mut got = vec![];
        for (i, t) in data.chunks(5).enumerate() {
            if t[0] > 0 {
                line += t[0];
                column = t[1];
                last_end = 0;
            } else {
                column += t[1];
            }
            ensure!(column >= last_end, "token {} overlaps the one before it ({}:{})", i, line, column);
            last_end = column + t[2];
            if soft.contains(&(line, column)) {
                ensure!(kinds.values().all(|k| *k as u64 != t[3]), "a line break or the end is shown as {:?}", legend.get(t[3] as usize));
                ensure!(t[2] <= 2, "a line break or the end is {} units long", t[2]);
                continue;
            }
            got.push((line, column, t[2], t[3]));
        }
        ensure!(got.len() == want.len(), "{} semantic tokens for {} tokens", got.len(), want.len());
        for (g, w) in got.iter().zip(&want) {
            ensure!((g.0, g.1, g.2) == (w.0, w.1, w.2), "a semantic token at line {}, {} + {} instead of line {}, {} + {}", g.0, g.1, g.2, w.0, w.1, w.2);
            match w.3 {
                Some(k) => ensure!(kinds[k] as u64 == g.3, "the {} at {}:{} has the type {} ({:?})", k, g.0, g.1, g.3, legend.get(g.3 as usize)),
                None => ensure!(
                    kinds.values().all(|k| *k as u64 != g.3),
                    "plain text at {}:{} has the type {} ({:?})",
                    g.0,
                    g.1,
                    g.3,
                    legend.get(g.3 as usize)
                ),
            }
        }
        c.count("semantic tokens compared", want.len());
        c.nontrivial(want.iter().any(|w| w.3.is_some()), fnv(text.as_bytes()));
    }
    s.finish()?;
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

pub fn c22(c: &mut Case) -> Check {
    let dir = fresh(c, "lsp")?;
    let mut s = Session::start(c, &dir)?;
    // what clients announce
    let (publish, capabilities) = match c.r.below(8) {
        0 => (false, json!({})),
        1 => (false, json!({"textDocument": {}})),
        2 => (false, json!({"textDocument": {"synchronization": {"didSave": true}}, "workspace": {"applyEdit": true}})),
        3 => (true, json!({"textDocument": {"publishDiagnostics": {}}})),
        4 => (true, json!({"textDocument": {"publishDiagnostics": {"relatedInformation": false}}, "general": {"positionEncodings": ["utf-8", "utf-16"]}})),
        _ => (true, capabilities(true)),
    };
    s.ask(json!("i"), "initialize", json!({"processId": null, "rootUri": null, "capabilities": capabilities}))?;
    s.send(&json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}))?;
    let mut paths = vec![];
    for n in ["a", "é 日", "a%41#?"] {
        paths.push(dir.join(format!("{}.[]", n)));
    }
    let mut last = String::new();
    for k in 0..15 {
        let text = if c.r.chance(15) && last.is_ascii() && last.len() > 1 {
            // as long as what was saved just before
            let mut bytes = last.into_bytes();
            for _ in 0..c.r.range(1, 4) {
                let (i, j) = (c.r.below(bytes.len()), c.r.below(bytes.len()));
                if c.r.chance(50) {
                    bytes[i] = *c.r.pick(b"[]{}<>., \\x");
                } else {
                    bytes.swap(i, j);
                }
            }
            String::from_utf8_lossy(&bytes).to_string()
        } else {
            lsp_text(c)
        };
        last = text.clone();
        let path = c.r.pick(&paths).clone();
        let mut u = uri(&path);
        if c.r.chance(30) {
            u = u.replace("%5B", "[").replace("%5D", "]");
        }
        io(std::fs::write(&path, &text))?;
        c.input(&text);
        let mut params = json!({"textDocument": {"uri": u}});
        if c.r.chance(40) {
            // the file counts, not what is said about it
            params["text"] = json!("[something.else");
        }
        if c.r.chance(30) {
            s.send(&json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": u, "languageId": "brack", "version": 1, "text": "[a.b"}}}))?;
        }
        s.send(&json!({"jsonrpc": "2.0", "method": "textDocument/didSave", "params": params}))?;
        // a request after it: everything before its answer is the reaction to the notification
        s.send(&json!({"jsonrpc": "2.0", "id": k, "method": "no/such/method"}))?;
        let mut published = vec![];
        loop {
            let m = s.next("never reacts to a save, and the request after it")?.ok_or_else(|| format!("the server ended: {}", s.post_mortem()))?;
            if m.get("method").is_none() {
                ensure!(m.get("id") == Some(&json!(k)), "an answer to nothing: {}", m);
                break;
            }
            ensure!(m["method"] == "textDocument/publishDiagnostics", "an unexpected {}", shorten(&m.to_string(), 200));
            published.push(m);
        }
        if !publish {
            ensure!(published.is_empty(), "diagnostics for a client that announced no support: {:?}", published);
            c.count("saves of clients without support", 1);
            continue;
        }
        ensure!(published.len() == 1, "{} publish messages after one save", published.len());
        let p = &published[0]["params"];
        ensure!(p["uri"] == u, "diagnostics for {} after saving {}", p["uri"], u);
        let list = p["diagnostics"].as_array().ok_or(format!("no list of diagnostics: {}", p))?;
        let map = Map::new(&text);
        let lines: Vec<usize> = line_lengths(&text);
        for d in list {
            let r = &d["range"];
            let n = |v: &Json| v.as_u64().map(|x| x as usize);
            let (sl, sc, el, ec) = match (n(&r["start"]["line"]), n(&r["start"]["character"]), n(&r["end"]["line"]), n(&r["end"]["character"])) {
                (Some(a), Some(b), Some(x), Some(y)) => (a, b, x, y),
                _ => return Err(format!("no range: {}", d)),
            };
            ensure!((sl, sc) <= (el, ec) && el < lines.len(), "the range of {} is outside the document", d);
        }
        match front(&text) {
            Err(_) => {
                ensure!(!list.is_empty(), "no diagnostics for a document that does not parse");
                c.count("documents that do not parse", 1);
            }
            Ok((_, _, errors)) => {
                ensure!(list.len() == errors.len(), "{} diagnostics are published, the compiler has {:?}", list.len(), errors);
                let mut left: Vec<&Json> = list.iter().collect();
                for (message, l) in &errors {
                    let hit = left.iter().position(|d| {
                        d["message"] == **message
                            && agrees(&text, &map, &lines, &l.start, &d["range"]["start"])
                            && agrees(&text, &map, &lines, &l.end, &d["range"]["end"])
                    });
                    match hit {
                        Some(i) => {
                            left.remove(i);
                        }
                        None => return Err(format!("{:?} at {:?} is not among the diagnostics {}", message, l, json!(list))),
                    }
                }
                c.count(if errors.is_empty() { "well-formed documents" } else { "documents with diagnostics" }, 1);
                c.count("diagnostics compared", errors.len());
            }
        }
        c.nontrivial(!list.is_empty(), fnv(text.as_bytes()));
    }
    s.finish()?;
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

/// Lengths of the lines in UTF-16 units.
fn line_lengths(text: &str) -> Vec<usize> {
    text.replace("\r\n", "\n").split('\n').map(|l| l.encode_utf16().count()).collect()
}

fn agrees(text: &str, map: &Map, lines: &[usize], want: &LocationData, got: &Json) -> bool {
    if got["line"] != want.line {
        return false;
    }
    let g = got["character"].as_u64().unwrap_or(u64::MAX) as usize;
    match utf16(text, map, want.line, want.character) {
        Some(n) => g == n,
        // the end of a line break: anything past the end of the line
        None => lines.get(want.line).map(|n| g > *n && g <= n + 2).unwrap_or(false),
    }
}

/// The text a snippet inserts.
fn snippet(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        match ch {
            '\\' => match it.peek() {
                Some('\\') | Some('$') | Some('}') => out.extend(it.next()),
                _ => out.push('\\'),
            },
            '$' => {
                let rest: String = it.clone().collect();
                if rest.starts_with('0') {
                    it.next();
                } else if rest.starts_with("{0}") {
                    it.nth(2);
                } else if rest.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '{') {
                    return Err(format!("{:?} has a place for something else in it", s));
                } else {
                    out.push('$');
                }
            }
            c => out.push(c),
        }
    }
    Ok(out)
}

pub fn items(answer: &Json) -> Result<Vec<Json>, String> {
    let r = answer.get("result").ok_or(format!("completion fails: {}", shorten(&answer.to_string(), 300)))?;
    Ok(match r {
        Json::Null => vec![],
        Json::Array(a) => a.clone(),
        o => o["items"].as_array().cloned().ok_or(format!("no completion list: {}", shorten(&o.to_string(), 200)))?,
    })
}

pub fn c23(c: &mut Case) -> Check {
    let dir = fresh(c, "lsp")?;
    let mut worlds = vec![];
    for k in 0..2 {
        let hooks = c.r.chance(50);
        let mut modules = if c.r.chance(10) { vec![] } else { world(c, &Wishes { hooks, macros: true, failing: false, pure: true }) };
        if c.r.chance(30) && !modules.is_empty() {
            // nothing of some kind
            let gone = c.r.pick(&[Type::TInline, Type::TBlock, Type::TAST]).clone();
            for m in &mut modules {
                if !(m.flag.document_hook || m.flag.stmt_hook || m.flag.expr_hook || m.flag.text_hook) {
                    m.entries.retain(|e| e.ret != gone);
                }
            }
        }
        if c.r.chance(30) && !modules.is_empty() {
            // many, and of other kinds
            let n = if c.r.chance(20) { *c.r.pick(&[40usize, 70, 110, 210, 270]) } else { 10 };
            let m = &mut modules[0];
            let one = (n > 10).then(|| c.r.pick(&[Type::TInline, Type::TBlock, Type::TAST]).clone());
            for i in 0..n {
                let ret = if let Some(t) = &one { t.clone() } else { c.r.pick(&[Type::TInline, Type::TBlock, Type::TAST, Type::TOption(Box::new(Type::TInline)), Type::TArray(Box::new(Type::TBlock))]).clone() };
                m.entries.push(Entry { command: format!("extra{}", i), call: "s0".into(), args: vec![], ret });
            }
        }
        lsp_project(c, &dir.join(format!("p{}", k)), &modules)?;
        worlds.push(modules);
    }
    let mut s = Session::start(c, &dir)?;
    s.ask(json!("i"), "initialize", json!({"processId": null, "rootUri": null, "capabilities": capabilities(true)}))?;
    let mut current: Option<usize> = None;
    let mut id = 0;
    for _ in 0..c.r.range(6, 16) {
        match c.r.below(if current.is_none() { 4 } else { 8 }) {
            0 => {
                // a document outside of any project opens none
                let f = dir.join("lonely.[]");
                io(std::fs::write(&f, "x"))?;
                if current.is_none() {
                    s.send(&json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri(&f), "languageId": "brack", "version": 1, "text": ""}}}))?;
                }
            }
            1 | 2 if current.is_none() || c.r.chance(50) => {
                let k = c.r.below(2);
                if c.r.chance(30) {
                    // it has changed since it was opened, if it was
                    let hooks = c.r.chance(50);
                    worlds[k] = if c.r.chance(20) { vec![] } else { world(c, &Wishes { hooks, macros: true, failing: false, pure: true }) };
                    lsp_project(c, &dir.join(format!("p{}", k)), &worlds[k])?;
                    c.count("projects changed", 1);
                }
                // the file need not exist yet; the editor says it is open
                let f = dir.join(format!("p{}/docs/{}.[]", k, c.r.pick(&["main", "é x"])));
                s.send(&json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri(&f), "languageId": "brack", "version": 1, "text": ""}}}))?;
                current = Some(k);
                c.count("projects opened", 1);
            }
            _ => (),
        }
        let trigger = c.r.pick(&["[", "{", "<", "[", "{", "<", " ", ".", "]", "x", "日", "", "none", "invoked"]).to_string();
        let f = dir.join(format!("p{}/docs/main.[]", current.unwrap_or(0)));
        let mut params = json!({"textDocument": {"uri": uri(&f)}, "position": {"line": 0, "character": c.r.below(5)}});
        params["context"] = match trigger.as_str() {
            "none" | "invoked" => json!({"triggerKind": 1}),
            t => json!({"triggerKind": 2, "triggerCharacter": t}),
        };
        id += 1;
        let note = format!("{:?} with {:?}", params["context"], current.map(|k| &worlds[k]));
        c.input(&note);
        let answer = s.ask(json!(id), "textDocument/completion", params)?;
        let got = items(&answer)?;
        let (kind, close) = match trigger.as_str() {
            "[" => (Some(Type::TInline), "]"),
            "{" => (Some(Type::TBlock), "}"),
            "<" => (Some(Type::TAST), ">"),
            _ => (None, ""),
        };
        let mut want: Vec<String> = match (&kind, current) {
            (Some(kind), Some(k)) => worlds[k]
                .iter()
                .flat_map(|m| m.entries.iter().filter(|e| e.ret == *kind).map(|e| format!("{}.{}", m.name, e.command)).collect::<Vec<_>>())
                .collect(),
            _ => vec![],
        };
        c.nontrivial(!want.is_empty(), fnv(note.as_bytes()));
        let mut texts = vec![];
        for item in &got {
            let raw = item["textEdit"]["newText"].as_str().or(item["insertText"].as_str()).or(item["label"].as_str()).ok_or(format!("an item without a label: {}", item))?;
            let text = if item["insertTextFormat"] == 2 { snippet(raw)? } else { raw.to_string() };
            let body = text.strip_suffix(close).ok_or(format!("after {:?}, {:?} is inserted", trigger, text))?;
            texts.push(body.trim_end_matches(' ').to_string());
        }
        texts.sort();
        want.sort();
        ensure!(
            texts == want,
            "after {:?} with {} the commands {} are offered instead of {}",
            trigger,
            current.map(|k| format!("project {}", k)).unwrap_or("no project".into()),
            shorten(&format!("{:?}", texts), 500),
            shorten(&format!("{:?}", want), 500)
        );
        c.count("commands offered", want.len());
        c.count("completions", 1);
    }
    s.finish()?;
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}
