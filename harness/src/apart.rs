//! Documents do not influence each other (C34): everything a process with a history says about a
//! document is compared with what a new process says which never saw another one.
use crate::case::Case;
use crate::cli::{brack, io, place, plain, project, value};
use crate::doc;
use crate::ensure;
use crate::front::Check;
use crate::gen::{fitted, world, Fail, Module, Wishes, World};
use crate::plug::Entry;
use crate::lsp::{capabilities, fresh, uri, Session};
use crate::rng::{fnv, Rng};
use crate::robust::hostile;
use crate::text::{shorten, SPECIAL};
use brack_plugin::feature_flag::FeatureFlag;
use brack_plugin::types::Type;
use serde_json::{json, Value as Json};
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use unicode_segmentation::UnicodeSegmentation;

/// All the front end says about a document, node ids aside.
pub fn describe(text: &str) -> Result<Json, String> {
    let tokens = brack_tokenizer::tokenize::tokenize_str(text).map_err(|e| format!("tokenize: {:#}", e))?;
    let mut all = json!({ "tokens": value(&tokens)? });
    match brack_parser::parse::parse(&tokens) {
        Err(e) => all["unparsable"] = json!(format!("{:#}", e)),
        Ok(cst) => {
            let (ast, errors) = brack_transformer::transform::transform(&cst);
            all["cst"] = plain(value(&cst)?);
            all["ast"] = plain(value(&ast)?);
            all["errors"] = errors.iter().map(|e| json!([e.get_message(), value(&e.get_location()).unwrap_or_default()])).collect();
        }
    }
    Ok(all)
}

/// The same, said by a process made for this document.
fn described(text: &str) -> Result<String, String> {
    let exe = std::env::current_exe().map_err(|e| format!("!{}", e))?;
    let mut child = io(Command::new(exe).arg("--describe").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn())?;
    io(child.stdin.take().ok_or("!stdin")?.write_all(text.as_bytes()))?;
    let out = io(child.wait_with_output())?;
    if !out.status.success() {
        return Err(format!("a process of its own cannot describe {:?}: {:?}", shorten(text, 200), out.status));
    }
    String::from_utf8(out.stdout).map_err(|e| format!("!{}", e))
}

fn judge(text: &str, want: &str, when: &str) -> Check {
    let got = describe(text).map_err(|m| format!("{}: {}", when, m))?.to_string();
    if got == want {
        return Ok(());
    }
    let at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    let around = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(100).min(s.len())..]).to_string();
    Err(format!(
        "{}, a document is taken for something else than when it is alone: {} instead of {} ({:?})",
        when,
        shorten(&around(&got), 260),
        shorten(&around(want), 260),
        shorten(text, 200)
    ))
}

/// Documents which are easily mistaken for one another.
fn relatives(r: &mut Rng, text: &str) -> Vec<String> {
    let mut all = vec![text.to_string()];
    for _ in 0..r.range(2, 6) {
        let of = r.pick(&all).clone();
        let mut gs: Vec<&str> = of.graphemes(true).collect();
        let k = r.below(gs.len().max(1));
        let special = *r.pick(SPECIAL);
        match r.below(7) {
            // as long, but for one character
            0 | 1 if !gs.is_empty() => gs[k] = if gs[k].len() > 1 { "é" } else { special },
            2 if k + 1 < gs.len() => gs.swap(k, k + 1),
            3 => gs.truncate(k),
            4 => gs.insert(k.min(gs.len()), special),
            5 if !gs.is_empty() => {
                gs.remove(k);
            }
            6 => gs.reverse(),
            _ => gs.insert(0, "\n"),
        }
        let mut new = gs.concat();
        if r.chance(20) {
            // the same words, divided differently
            let (a, b) = *r.pick(&[(", ", "\\, "), (",", "\\,"), ("\\,", ","), (", ", ","), ("\n\n", "\n"), (" ", ""), (",", " "), ("[", "\\["), ("] ", "]"), ("}\n", "}"), (".", "\\.")]);
            new = if r.chance(50) { of.replace(a, b) } else { of.replacen(a, b, 1) };
        }
        if !all.contains(&new) {
            all.push(new);
        }
    }
    all
}

/// In this process, with everything it did before, and on several threads at once.
fn in_process(c: &mut Case) -> Check {
    let base = match c.r.below(4) {
        0 => hostile(&mut c.r, &[], false),
        _ => doc::well_formed(&mut c.r).1.text,
    };
    let mut texts = relatives(&mut c.r, &base);
    for _ in 0..c.r.range(0, 3) {
        texts.push(hostile(&mut c.r, &[], false));
    }
    texts.retain(|t| t.len() < 6000);
    if texts.is_empty() {
        return Ok(());
    }
    c.input(&texts.join("\n-----\n"));
    let mut wants = vec![];
    for t in &texts {
        wants.push(described(t)?);
    }
    let distinct: std::collections::HashSet<&String> = wants.iter().collect();
    c.nontrivial(distinct.len() > 2, fnv(texts.concat().as_bytes()));
    for _ in 0..c.r.range(texts.len() * 2, texts.len() * 4) {
        let i = c.r.below(texts.len());
        judge(&texts[i], &wants[i], "after other documents")?;
        c.count("documents described after others", 1);
    }
    if c.index % 3 == 0 {
        let orders: Vec<Vec<usize>> = (0..4).map(|_| (0..texts.len() * 3).map(|_| c.r.below(texts.len())).collect()).collect();
        let start = std::sync::Barrier::new(orders.len());
        let (texts, wants, start) = (&texts, &wants, &start);
        let results: Vec<Check> = std::thread::scope(|s| {
            let handles: Vec<_> = orders
                .iter()
                .map(|order| {
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                        start.wait();
                        order.iter().try_for_each(|i| judge(&texts[*i], &wants[*i], "while other threads are at work"))
                    })
                })
                .collect();
            handles
                .into_iter()
                .map(|h| match h {
                    Ok(h) => h.join().unwrap_or_else(|_| Err("a thread panicked while others were at work".into())),
                    Err(e) => Err(format!("!{}", e)),
                })
                .collect()
        });
        for x in results {
            x?;
        }
        c.count("documents described on threads", texts.len() * 12);
    }
    Ok(())
}

/// One set of plugins for many documents.
fn with_plugins(c: &mut Case) -> Check {
    let mut modules = world(c, &Wishes { hooks: true, macros: true, failing: c.index % 2 == 0, pure: true });
    let listing = c.r.chance(50) && !modules.iter().any(|m| m.name == "list");
    if listing {
        let entry = |command: &str, ret: Type| Entry { command: command.into(), call: "s1".into(), args: vec![Type::TArray(Box::new(Type::TInline))], ret };
        modules.push(Module { name: "list".into(), entries: vec![entry("w", Type::TInline), entry("w", Type::TBlock)], flag: FeatureFlag::default() });
    }
    let mut w = World::load(c, modules, "c34")?;
    let mut list: Vec<(String, Option<String>)> = vec![];
    if listing {
        // the same characters, divided into arguments differently
        let words: Vec<String> = (0..c.r.range(2, 4)).map(|_| doc::name(&mut c.r, true)).collect();
        for (i, between) in [", ", "\\, ", ",", "\\,", "", " "].iter().enumerate() {
            if i < 2 || c.r.chance(40) {
                list.push((format!("[list.w {}]", words.join(between)), None));
                list.push((format!("{{list.w {}}}", words.join(between)), None));
            }
        }
    }
    for _ in 0..c.r.range(3, 6) {
        let text = fitted(c, &w.modules.clone(), true).1;
        for t in relatives(&mut c.r, &text).into_iter().take(3) {
            list.push((t, None));
        }
    }
    list.retain(|t| t.0.len() < 6000);
    c.input(&list.iter().map(|t| t.0.as_str()).collect::<Vec<_>>().join("\n-----\n"));
    c.nontrivial(true, fnv(list.iter().map(|t| t.0.as_str()).collect::<String>().as_bytes()));
    for _ in 0..list.len() * 3 {
        let i = c.r.below(list.len());
        let (text, known) = list[i].clone();
        let got = (|| -> Result<String, String> {
            let tokens = brack_tokenizer::tokenize::tokenize_str(&text).map_err(|e| e.to_string())?;
            let cst = brack_parser::parse::parse(&tokens).map_err(|e| e.to_string())?;
            let (ast, errors) = brack_transformer::transform::transform(&cst);
            ensure!(errors.is_empty(), "diagnosed");
            let expanded = brack_expander::expand::expander(&ast, &mut w.plugins).map_err(|_| "expand")?;
            Ok(brack_codegen::generate::generate(&expanded, &mut w.plugins).map_err(|_| "generate")?)
        })();
        let got = match got {
            Ok(s) => format!("output {}", s),
            Err(s) => format!("error {}", s),
        };
        match known {
            None => {
                list[i].1 = Some(got.clone());
                c.count("documents with plugins", 1);
            }
            Some(before) => {
                ensure!(got == before, "the same document with the same plugins comes out as {:?} now, and as {:?} before ({:?})", shorten(&got, 250), shorten(&before, 250), shorten(&text, 200));
                c.count("documents with plugins again", 1);
            }
        }
    }
    // and as the model has it, by a set of plugins that never saw another document
    let tree = |text: &str| crate::front::front(text).ok().filter(|t| t.2.is_empty()).map(|t| t.1);
    let mut judged = 0;
    for (text, known) in &list {
        let (Some(got), Some(ast)) = (known, tree(text)) else { continue };
        let mut calls = 0;
        let want = match w.expand(&ast, &ast, &mut calls).and_then(|t| w.eval(&t)) {
            Ok(s) => format!("output {}", s),
            Err(Fail::Harness(m)) if m.contains("macro head") => continue,
            Err(Fail::Harness(m)) => return Err(format!("!{}", m)),
            Err(Fail::Expected(_)) => {
                ensure!(got.starts_with("error"), "an impossible document comes out as {:?} ({:?})", shorten(got, 250), shorten(text, 200));
                continue;
            }
        };
        ensure!(*got == want, "a document among others comes out as {:?} instead of {:?} ({:?})", shorten(got, 250), shorten(&want, 250), shorten(text, 200));
        judged += 1;
    }
    c.count("outputs of the model", judged);
    Ok(())
}

/// The documents of a project, together and alone.
fn in_projects(c: &mut Case) -> Check {
    let modules = world(c, &Wishes { hooks: true, macros: false, failing: false, pure: true });
    let dir = place(c, "apart")?;
    let mut texts = vec![];
    while texts.len() < c.r.range(3, 6) {
        let (d, text, _) = fitted(c, &modules, false);
        texts.push(text);
        // the same once more in another form
        if let Some(p) = doc::rewrite(&mut c.r, &d) {
            texts.push(p.text);
        }
    }
    c.input(&texts.join("\n-----\n"));
    c.nontrivial(true, fnv(texts.concat().as_bytes()));
    project(c, &dir.join("together"), &modules, "html", None, &[])?;
    io(std::fs::create_dir_all(dir.join("together/docs")))?;
    for (i, t) in texts.iter().enumerate() {
        io(std::fs::write(dir.join(format!("together/docs/{}.[]", i)), t))?;
    }
    let run = brack(c, &dir.join("together"), &["build"])?;
    run.sane("build")?;
    ensure!(run.code == Some(0), "a sound project does not build: {}", run.err);
    let alone = dir.join("alone");
    io(std::fs::create_dir_all(alone.join("docs")))?;
    io(std::fs::copy(dir.join("together/Brack.toml"), alone.join("Brack.toml")))?;
    io(std::fs::create_dir_all(alone.join("plugins")))?;
    for e in io(std::fs::read_dir(dir.join("together/plugins")))? {
        let e = io(e)?;
        io(std::fs::copy(e.path(), alone.join("plugins").join(e.file_name())))?;
    }
    for _ in 0..2 {
        let i = c.r.below(texts.len());
        let _ = std::fs::remove_dir_all(alone.join("docs"));
        let _ = std::fs::remove_dir_all(alone.join("out"));
        io(std::fs::create_dir_all(alone.join("docs")))?;
        io(std::fs::write(alone.join(format!("docs/{}.[]", i)), &texts[i]))?;
        let run = brack(c, &alone, &["build"])?;
        run.sane("build")?;
        ensure!(run.code == Some(0), "a document that builds with others does not build alone: {}", run.err);
        let read = |p: &str| std::fs::read(dir.join(p).join(format!("out/{}.html", i))).map_err(|e| format!("no output of {} {}: {}", p, i, e));
        let (a, b) = (read("together")?, read("alone")?);
        ensure!(
            a == b,
            "a document is built into {:?} among others, and into {:?} alone ({:?})",
            shorten(&String::from_utf8_lossy(&a), 200),
            shorten(&String::from_utf8_lossy(&b), 200),
            shorten(&texts[i], 200)
        );
        c.count("documents built together and alone", 1);
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

/// What the language server says about a file.
fn said(s: &mut Session, path: &std::path::Path, id: u64) -> Result<Json, String> {
    let u = uri(path);
    s.send(&json!({"jsonrpc": "2.0", "method": "textDocument/didSave", "params": {"textDocument": {"uri": u}}}))?;
    s.send(&json!({"jsonrpc": "2.0", "id": id, "method": "textDocument/semanticTokens/full", "params": {"textDocument": {"uri": u}}}))?;
    let mut all = vec![];
    loop {
        let m = s.next("never answers a request for tokens")?.ok_or("the server ended")?;
        if m.get("method").is_none() {
            ensure!(m["id"] == json!(id), "an answer to nothing: {}", m);
            all.push(m.get("result").cloned().unwrap_or_else(|| m["error"].clone()));
            return Ok(Json::Array(all));
        }
        all.push(m["params"]["diagnostics"].clone());
    }
}

fn in_server(c: &mut Case) -> Check {
    let dir = fresh(c, "apart")?;
    let base = doc::well_formed(&mut c.r).1.text;
    let mut texts = relatives(&mut c.r, &base);
    texts.push(hostile(&mut c.r, &[], false));
    c.input(&texts.join("\n-----\n"));
    c.nontrivial(true, fnv(texts.concat().as_bytes()));
    let begin = |c: &Case| -> Result<Session, String> {
        let mut s = Session::start(c, &dir)?;
        s.ask(json!("i"), "initialize", json!({"processId": null, "rootUri": null, "capabilities": capabilities(true)}))?;
        Ok(s)
    };
    let mut wants: BTreeMap<usize, Json> = BTreeMap::new();
    let mut long = begin(c)?;
    for k in 0..c.r.range(10, 30) as u64 {
        let i = c.r.below(texts.len());
        let path = dir.join(c.r.pick(&["a.[]", "b.[]"]));
        io(std::fs::write(&path, &texts[i]))?;
        if c.r.chance(20) {
            long.send(&json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri(&path), "languageId": "brack", "version": 1, "text": texts[c.r.below(texts.len())]}}}))?;
        }
        let got = said(&mut long, &path, k)?;
        if !wants.contains_key(&i) {
            if wants.len() > 3 {
                continue;
            }
            let mut s = begin(c)?;
            wants.insert(i, said(&mut s, &path, 1)?);
            s.finish()?;
        }
        ensure!(
            got == wants[&i],
            "after other documents the server says {} about a document instead of {} ({:?})",
            shorten(&got.to_string(), 250),
            shorten(&wants[&i].to_string(), 250),
            shorten(&texts[i], 200)
        );
        c.count("documents seen by a server with a history", 1);
    }
    long.finish()?;
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

pub fn c34(c: &mut Case) -> Check {
    match c.index % 12 {
        3 => in_projects(c),
        5 => with_plugins(c),
        7 => in_server(c),
        _ => in_process(c),
    }
}
