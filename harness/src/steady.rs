//! Long and odd sessions of the language server: what they leave behind (C31), and what they hold on to (C33).
use crate::case::Case;
use crate::cli::{changes, io, snapshot};
use crate::ensure;
use crate::front::Check;
use crate::gen::{world, Wishes};
use crate::lsp::{capabilities, frame, fresh, lsp_project, lsp_text, uri, Session};
use crate::rng::fnv;
use crate::text::shorten;
use serde_json::{json, Value as Json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

/// Waits until everything sent so far has been dealt with.
fn settle(s: &mut Session, id: &str) -> Check {
    s.send(&json!({"jsonrpc": "2.0", "id": id, "method": "no/such/method"}))?;
    loop {
        let m = s.next("never answers")?.ok_or("the server ended")?;
        if m.get("method").is_none() && m.get("id") == Some(&json!(id)) {
            return Ok(());
        }
    }
}

/// Which file it is, how it may be used, and when it was last written.
fn stamp(path: &Path) -> Result<(u64, u32, i64, i64), String> {
    use std::os::unix::fs::MetadataExt;
    let m = io(std::fs::symlink_metadata(path))?;
    Ok((m.ino(), m.mode(), m.mtime(), m.mtime_nsec()))
}

/// Of everything but the directories, which change with what is fetched.
fn stamps(root: &Path, files: &BTreeMap<PathBuf, Vec<u8>>) -> Result<Vec<(PathBuf, (u64, u32, i64, i64))>, String> {
    files.keys().filter(|k| !root.join(k).is_dir()).map(|k| Ok((k.clone(), stamp(&root.join(k))?))).collect()
}

pub fn c31(c: &mut Case) -> Check {
    let dir = fresh(c, "lsp")?;
    let mut roots = vec![];
    for k in 0..2 {
        let modules = if c.r.chance(20) { vec![] } else { world(c, &Wishes { hooks: true, macros: true, failing: false, pure: true }) };
        let root = dir.join(format!("p{}", k));
        lsp_project(c, &root, &modules)?;
        match c.r.below(4) {
            0 => {
                // some plugins are not there, and cannot be fetched
                let t = io(std::fs::read_to_string(root.join("Brack.toml")))?;
                io(std::fs::write(root.join("Brack.toml"), format!("{}[plugins.gone]\nschema = \"github\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"v\"\n", t)))?;
            }
            1 if c.r.chance(50) => io(std::fs::write(root.join("Brack.toml"), "[document"))?,
            _ => (),
        }
        if c.r.chance(60) {
            io(std::fs::create_dir_all(root.join("out")))?;
        }
        io(std::fs::create_dir_all(root.join("docs/deeper/docs")))?;
        for f in ["docs/main.[]", "docs/é b.[]", "docs/deeper/x.[]", "out/main.html", "out/main.[]", "README.md", ".gitignore", "main.[]", "plugins/notes.txt", "plugins/old.[]", "docs/main.[].swp", "docs/picture.png"] {
            if c.r.chance(80) && (!f.starts_with("out/") || root.join("out").exists()) {
                let text = if f.ends_with(".[]") { lsp_text(c) } else { "precious".to_string() };
                io(std::fs::write(root.join(f), text))?;
            }
        }
        roots.push(root);
    }
    let configurations: Vec<String> = roots.iter().map(|r| std::fs::read_to_string(r.join("Brack.toml")).unwrap_or_default()).collect();
    let mut before = snapshot(&dir)?;
    let mut stamps = stamps(&dir, &before)?;
    let cwd = if c.r.chance(50) { roots[0].clone() } else { dir.clone() };
    let mut s = Session::start(c, &cwd)?;
    let mut story = vec![];
    for k in 0..c.r.range(5, 40) {
        let root = c.r.pick(&roots).clone();
        let file = root.join(*c.r.pick(&["docs/main.[]", "docs/main.[]", "docs/é b.[]", "docs/deeper/x.[]", "docs/new.[]", "out/main.[]", "main.[]", "Brack.toml", "README.md", "plugins/old.[]", "docs", ""]));
        let u = uri(&file);
        let text = match c.r.below(4) {
            0 => String::new(),
            1 => "[a.b c".to_string(),
            _ => lsp_text(c),
        };
        let doc = json!({"uri": u});
        let trigger = c.r.pick(&["[", "{", "<", ".", " "]).to_string();
        let (request, method, params) = match c.r.below(16) {
            0..=3 => (false, "textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "brack", "version": 1, "text": text}})),
            4 => (false, "textDocument/didChange", json!({"textDocument": {"uri": u, "version": 2}, "contentChanges": [{"text": text}]})),
            5 | 6 => (false, "textDocument/didSave", json!({"textDocument": doc, "text": text})),
            7 => (false, "textDocument/didClose", json!({"textDocument": doc})),
            8 => (true, "initialize", json!({"processId": null, "rootUri": uri(&root), "capabilities": capabilities(c.r.chance(70))})),
            9 | 10 => (true, "textDocument/completion", json!({"textDocument": doc, "position": {"line": 0, "character": 1}, "context": {"triggerKind": 2, "triggerCharacter": trigger}})),
            11 => (true, "textDocument/semanticTokens/full", json!({"textDocument": doc})),
            12 => (
                true,
                *c.r.pick(&["textDocument/formatting", "textDocument/rename", "workspace/executeCommand", "textDocument/codeAction"]),
                json!({"textDocument": doc, "newName": "x", "command": "brack.build", "options": {"tabSize": 2, "insertSpaces": true}}),
            ),
            13 => (
                false,
                *c.r.pick(&["workspace/didCreateFiles", "workspace/didDeleteFiles", "workspace/didChangeWatchedFiles", "textDocument/willSave", "workspace/didChangeConfiguration"]),
                json!({"textDocument": doc, "reason": 1, "files": [{"uri": u}], "changes": [{"uri": u, "type": 3}], "settings": {}}),
            ),
            14 => (true, "shutdown", Json::Null),
            _ => (false, "initialized", json!({})),
        };
        if c.r.chance(6) {
            // the author changes the configuration: fewer plugins, another version, or as it was
            settle(&mut s, &format!("c{}", k))?;
            let i = c.r.below(2);
            let mut parts: Vec<&str> = configurations[i].split_inclusive("version = \"v").collect();
            let sections: Vec<String> = configurations[i].split("[plugins.").map(|p| p.to_string()).collect();
            let text = match c.r.below(4) {
                0 => configurations[i].clone(),
                1 if parts.len() > 1 => {
                    parts.insert(1, "7");
                    parts.concat()
                }
                _ => {
                    let keep = c.r.below(sections.len());
                    sections[..=keep].join("[plugins.")
                }
            };
            let at = roots[i].join("Brack.toml");
            io(std::fs::write(&at, &text))?;
            let name = at.strip_prefix(&dir).unwrap_or(&at).to_path_buf();
            before.insert(name.clone(), text.into_bytes());
            for s in &mut stamps {
                if s.0 == name {
                    s.1 = stamp(&at)?;
                }
            }
            story.push(format!("configuration {} changed", i));
            c.count("configurations changed in a session", 1);
        }
        let mut m = json!({"jsonrpc": "2.0", "method": method, "params": params});
        if request {
            m["id"] = json!(k);
        }
        story.push(format!("{} {}", method, shorten(&file.strip_prefix(&dir).unwrap_or(&file).display().to_string(), 60)));
        s.send(&m)?;
        // the pipe of answers must not fill up
        if k % 8 == 7 {
            settle(&mut s, &format!("s{}", k))?;
        }
    }
    let told = story.join("; ");
    c.input(&told);
    c.nontrivial(true, fnv(format!("{} {:?}", told, before).as_bytes()));
    settle(&mut s, "end")?;
    if c.r.chance(70) {
        s.finish()?;
    } else {
        // the editor dies
        drop(s);
    }
    let after = snapshot(&dir)?;
    let stored = |p: &Path| p.extension().map(|e| e == "wasm").unwrap_or(false) && p.parent().map(|p| p.ends_with("plugins")).unwrap_or(false);
    // what was fetched for this configuration has to stay; anything more among the plugins is the server's own business
    let mine = |s: &BTreeMap<PathBuf, Vec<u8>>| -> BTreeMap<PathBuf, Vec<u8>> {
        s.iter().filter(|(k, _)| before.contains_key(*k) || !(stored(k) || k.ends_with("plugins"))).map(|(k, v)| (k.clone(), v.clone())).collect()
    };
    let (a, b) = (mine(&before), mine(&after));
    ensure!(a == b, "after the session {:?}: {}", changes(&a, &b), shorten(&told, 600));
    for (k, was) in &stamps {
        let now = stamp(&dir.join(k))?;
        ensure!(now == *was, "after the session {:?} has been written again ({:?}, {:?}): {}", k, was, now, shorten(&told, 600));
    }
    c.count("sessions", 1);
    c.count("messages", story.len());
    c.count("files compared", a.len());
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

#[derive(Clone, Copy, Debug)]
struct Held {
    files: usize,
    threads: usize,
    children: usize,
    resident: usize,
}

fn held(pid: u32) -> Result<Held, String> {
    let p = format!("/proc/{}", pid);
    let status = std::fs::read_to_string(format!("{}/status", p)).map_err(|e| format!("the server ended: {}", e))?;
    let field = |name: &str| {
        status
            .lines()
            .find_map(|l| l.strip_prefix(name))
            .and_then(|v| v.split_whitespace().next())
            .and_then(|v| v.parse::<usize>().ok())
            .unwrap_or(0)
    };
    let mut children = 0;
    if let Ok(tasks) = std::fs::read_dir(format!("{}/task", p)) {
        for t in tasks.flatten() {
            children += std::fs::read_to_string(t.path().join("children")).unwrap_or_default().split_whitespace().count();
        }
    }
    Ok(Held { files: io(std::fs::read_dir(format!("{}/fd", p)))?.count(), threads: field("Threads:"), children, resident: field("VmRSS:") })
}

/// What stands for the number of the round.
const OTHER: &str = "QxQxQxQx";

fn other(m: &[u8], round: usize) -> Vec<u8> {
    let mut out = m.to_vec();
    let number = format!("{:08}", round);
    let mut at = 0;
    while let Some(i) = out[at..].windows(OTHER.len()).position(|w| w == OTHER.as_bytes()) {
        out[at + i..at + i + 8].copy_from_slice(number.as_bytes());
        at += i + 8;
    }
    out
}

pub fn c33(c: &mut Case) -> Check {
    let dir = fresh(c, "lsp")?;
    let modules = if c.r.chance(20) { vec![] } else { world(c, &Wishes { hooks: c.index % 2 == 0, macros: true, failing: false, pure: true }) };
    let root = dir.join("p");
    lsp_project(c, &root, &modules)?;
    let gone = dir.join("gone");
    lsp_project(c, &gone, &[])?;
    let t = io(std::fs::read_to_string(gone.join("Brack.toml")))?;
    io(std::fs::write(gone.join("Brack.toml"), format!("{}[plugins.gone]\nschema = \"github\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"v\"\n", t)))?;
    let mut files = vec![];
    for (i, at) in [&root, &root, &gone, &dir].iter().enumerate() {
        let f = at.join(if i == 3 { "lonely.[]".to_string() } else { format!("docs/{}.[]", i) });
        let text: String = (0..c.r.range(1, 12)).map(|_| lsp_text(c)).collect();
        io(std::fs::write(&f, &text))?;
        files.push(f);
    }
    files.push(root.join("docs/missing.[]"));
    // one kind of message above all, or a bit of everything
    let focus = (c.index + c.shard) % 8;
    let filler = "[a.b é日本 \\, x]\n".repeat(*c.r.pick(&[0usize, 10, 300, 3000]));
    let mut block: Vec<Vec<u8>> = vec![];
    let (kinds, size): (&[usize], usize) = match focus {
        0 => (&[0], 400),
        1 => (&[1], 10),
        2 => (&[2], 40),
        3 => (&[3], 40),
        4 => (&[4, 5, 8], 1500),
        5 => (&[0, 6, 7], 500),
        _ => (&[0, 0, 1, 2, 3, 4, 5, 6, 7, 8], 60),
    };
    let texts: Vec<String> = (0..4).map(|_| lsp_text(c)).chain([filler]).collect();
    for k in 0..size {
        let kind = *c.r.pick(kinds);
        // a project whose plugins cannot be fetched takes its time
        let f = match c.r.below(16) {
            0..=8 => &files[0],
            9..=11 => &files[1],
            12 if kind == 0 && focus != 0 => &files[2],
            13 => &files[4],
            _ => &files[3],
        };
        // some documents are others each time
        let fresh = root.join(format!("docs/n{}{}.[]", OTHER, k));
        let u = uri(if c.r.chance(30) { &fresh } else { f });
        let id = format!("{}-{}", OTHER, k);
        let doc = json!({"uri": u});
        let text = c.r.pick(&texts).clone();
        let m = match kind {
            0 => json!({"method": "textDocument/didOpen", "params": {"textDocument": {"uri": u, "languageId": "brack", "version": 1, "text": text}}}),
            1 => {
                let trigger = c.r.pick(&["[", "{", "<", ".", " "]).to_string();
                json!({"id": id, "method": "textDocument/completion", "params": {"textDocument": doc, "position": {"line": 0, "character": 1}, "context": {"triggerKind": 2, "triggerCharacter": trigger}}})
            }
            2 => json!({"id": id, "method": "textDocument/semanticTokens/full", "params": {"textDocument": doc}}),
            3 => json!({"method": "textDocument/didSave", "params": {"textDocument": doc, "text": text}}),
            4 => json!({"id": id, "method": "no/such/method", "params": {"text": text}}),
            5 => {
                block.push(frame(b"{\"no\": json", c.r.below(3)));
                continue;
            }
            6 => json!({"method": "textDocument/didChange", "params": {"textDocument": {"uri": u, "version": k}, "contentChanges": [{"text": text}]}}),
            7 => json!({"method": "textDocument/didClose", "params": {"textDocument": doc}}),
            _ => json!({"id": id, "method": "textDocument/completion", "params": {"textDocument": doc}}),
        };
        let mut m = m;
        m["jsonrpc"] = json!("2.0");
        block.push(frame(m.to_string().as_bytes(), c.r.below(3)));
    }
    let bytes: usize = block.iter().map(Vec::len).sum();
    let told = format!("blocks of {} messages ({} bytes) of the kinds {:?} over {} modules", block.len(), bytes, kinds, modules.len());
    c.input(&told);
    c.nontrivial(true, fnv(format!("{:?}", block).as_bytes()));
    let mut s = Session::start(c, &dir)?;
    s.ask(json!("i"), "initialize", json!({"processId": null, "rootUri": null, "capabilities": capabilities(c.r.chance(80))}))?;
    s.send(&json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri(&files[0]), "languageId": "brack", "version": 1, "text": ""}}}))?;
    let (warm, rounds) = if c.thorough { (2, 10) } else { (2, 3) };
    let mut round = 0;
    let mut go = |s: &mut Session, rounds: usize| -> Result<Held, String> {
        for _ in 0..rounds {
            round += 1;
            for (k, m) in block.iter().enumerate() {
                s.write(&other(m, round), false)?;
                if k % 10 == 9 {
                    settle(s, &format!("s{}", k))?;
                    s.log.clear();
                }
            }
            settle(s, "end of the block")?;
            s.log.clear();
        }
        held(s.pid())
    };
    let mut story = vec![go(&mut s, warm)?];
    for _ in 0..2 {
        story.push(go(&mut s, rounds)?);
    }
    let grown = |story: &[Held]| {
        let n = story.len();
        let by = |i: usize| story[i].resident.saturating_sub(story[i - 1].resident);
        by(n - 1).min(by(n - 2))
    };
    let told = |story: &[Held]| format!("{}, {} of them at first, then {} at a time: {:?}", told, warm, rounds, story);
    // memory that only settles late stops growing; what is kept goes on
    while grown(&story) >= 450 && story.len() < 7 {
        story.push(go(&mut s, rounds)?);
    }
    s.finish()?;
    let (first, last) = (story[0], story[story.len() - 1]);
    if std::env::var("MONITOR_TALK").is_ok() {
        println!("GROWN {} {}", grown(&story), told(&story));
    }
    ensure!(last.files <= first.files + 4, "open files pile up: {}", told(&story));
    ensure!(last.threads <= first.threads + 24, "threads pile up: {}", told(&story));
    ensure!(last.children == 0, "processes are left: {}", told(&story));
    ensure!(grown(&story) < 450, "memory grows and grows: {}", told(&story));
    let rounds = rounds * (story.len() - 1);
    c.count("messages sent", block.len() * (warm + rounds));
    c.count("kilobytes sent", bytes * (warm + rounds) / 1024);
    c.count("sessions", 1);
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}
