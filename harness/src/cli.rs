//! The programs as a user runs them: compile (C08, C13, C24), build (C13, C15), new (C18).
use crate::case::Case;
use crate::doc::{self, Kind};
use crate::ensure;
use crate::front::{front, Check};
use crate::gen::{fitted, spoil, world, Fail, Module, Wishes, World};
use crate::plug::{metadata, probe};
use crate::rng::{fnv, Rng};
use crate::robust::{hostile, limited};
use crate::text::shorten;
use brack_parser::cst::CST;
use brack_plugin::feature_flag::FeatureFlag;
use brack_plugin::types::Type;
use brack_tokenizer::tokens::Token;
use brack_transformer::ast::AST;
use serde_json::Value as Json;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
}

impl Run {
    pub fn text(&self) -> Result<String, String> {
        String::from_utf8(self.out.clone()).map_err(|_| "standard output is not UTF-8".to_string())
    }
    /// It ended by itself, with a result or a reported error.
    pub fn sane(&self, what: &str) -> Check {
        if self.signal == Some(9) {
            return Err(format!("!{} was killed", what));
        }
        if self.signal == Some(24) {
            return Err(format!("{} is still running after 100 s of processor time", what));
        }
        ensure!(self.signal.is_none(), "{} died of signal {:?}: {}", what, self.signal, shorten(&self.err, 300));
        ensure!(
            matches!(self.code, Some(0) | Some(1)) && !self.err.contains("panicked at"),
            "{} crashed with status {:?}: {}",
            what,
            self.code,
            shorten(&self.err, 400)
        );
        Ok(())
    }
}

pub fn brack(c: &Case, cwd: &Path, args: &[&str]) -> Result<Run, String> {
    brack_with(c, cwd, args, &[])
}

pub fn brack_with<S: AsRef<std::ffi::OsStr>>(c: &Case, cwd: &Path, args: &[S], env: &[(&str, std::ffi::OsString)]) -> Result<Run, String> {
    let exe = std::env::current_exe().map_err(|e| format!("!{}", e))?.with_file_name("brack");
    let out = Command::new("/bin/sh")
        .arg("-c")
        .arg("ulimit -t 100; ulimit -c 0; exec timeout -s KILL 400 \"$0\" \"$@\"")
        .arg(exe)
        .args(args)
        .current_dir(cwd)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("HOME", c.dir.join("home"))
        .env("RUST_BACKTRACE", "0")
        .env("LANG", "C.UTF-8")
        // downloads are refused at once
        .env("HTTPS_PROXY", "http://127.0.0.1:9")
        .env("https_proxy", "http://127.0.0.1:9")
        .envs(env.iter().map(|(k, v)| (k, v)))
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("!brack: {}", e))?;
    // timeout reports the signal of its child as 128+n
    let (code, signal) = match (out.status.code(), out.status.signal()) {
        (Some(n), _) if n > 128 && n < 165 => (None, Some(n - 128)),
        (Some(124), _) => (None, Some(9)),
        x => x,
    };
    Ok(Run { code, signal, out: out.stdout, err: String::from_utf8_lossy(&out.stderr).to_string() })
}

pub fn io<T>(r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("!{}", e))
}

/// Every file below a directory: contents, or what else is there.
pub fn snapshot(root: &Path) -> Result<BTreeMap<PathBuf, Vec<u8>>, String> {
    fn walk(root: &Path, at: &Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) -> std::io::Result<()> {
        for e in std::fs::read_dir(at)? {
            let path = e?.path();
            let kind = std::fs::symlink_metadata(&path)?;
            let name = path.strip_prefix(root).unwrap_or(&path).to_path_buf();
            if kind.is_dir() {
                out.insert(name, b"<directory>".to_vec());
                walk(root, &path, out)?;
            } else if kind.is_symlink() {
                use std::os::unix::ffi::OsStrExt;
                let mut v = b"<link>".to_vec();
                v.extend(std::fs::read_link(&path)?.as_os_str().as_bytes());
                out.insert(name, v);
            } else {
                out.insert(name, std::fs::read(&path)?);
            }
        }
        Ok(())
    }
    let mut out = BTreeMap::new();
    io(walk(root, root, &mut out))?;
    Ok(out)
}

pub fn changes(a: &BTreeMap<PathBuf, Vec<u8>>, b: &BTreeMap<PathBuf, Vec<u8>>) -> Vec<String> {
    let mut out = vec![];
    for (k, v) in a {
        match b.get(k) {
            None => out.push(format!("{:?} is gone", k)),
            Some(w) if w != v => out.push(format!("{:?} is changed", k)),
            _ => (),
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            out.push(format!("{:?} is new", k));
        }
    }
    out
}

/// A new empty directory of this case.
pub fn place(c: &Case, name: &str) -> Result<PathBuf, String> {
    let p = c.dir.join(format!("{}{}", name, c.shard));
    let _ = std::fs::remove_dir_all(&p);
    io(std::fs::create_dir_all(&p))?;
    Ok(p)
}

/// A plugin directory as compile takes it, its files created in a random order.
pub fn plugin_dir(c: &mut Case, modules: &[Module], at: &Path) -> Check {
    let mut order: Vec<usize> = (0..modules.len()).collect();
    c.r.shuffle(&mut order);
    for i in order {
        let m = &modules[i];
        let suffix: String = (0..c.r.range(1, 10)).map(|_| *c.r.pick(&['0', 'a', 'Z', '9', 'f'])).collect();
        io(std::fs::write(at.join(format!("{}_{}.wasm", m.name, suffix)), probe(&c.wasm, &metadata(&m.entries))?))?;
    }
    Ok(())
}

/// Compiles hostile documents at every level.
pub fn c08_compile(c: &mut Case) -> Check {
    let plain = c.r.chance(40);
    let modules = if plain { vec![] } else { world(c, &Wishes { hooks: false, macros: true, failing: true, pure: false }) };
    let dir = place(c, "cli")?;
    let plugs = dir.join("plugs");
    io(std::fs::create_dir(&plugs))?;
    plugin_dir(c, &modules, &plugs)?;
    for round in 0..4 {
        let big = round == 3 && c.index % 3 == 0;
        let text = hostile(&mut c.r, &modules, big);
        // the debug build needs seconds for the largest documents at each level
        let text = if big { limited(&text, 24 << 10) } else { text };
        c.input(&text);
        c.nontrivial(text.len() > 1, fnv(text.as_bytes()));
        io(std::fs::write(dir.join("d.[]"), &text))?;
        for (level, json) in [("1", true), ("1", false), ("2", true), ("2", false), ("3", true), ("3", false), ("4", true), ("4", false), ("5", false), ("5", true)] {
            if big && c.r.chance(60) {
                continue;
            }
            let mut args = vec!["compile", "-p", "plugs", "-b", "html", "-f", "d.[]", "--output-level", level];
            if json {
                args.push("--json");
            }
            let run = brack(c, &dir, &args)?;
            run.sane(&format!("compile at level {}{}", level, if json { " as JSON" } else { "" }))?;
            c.count(&format!("compile runs at level {}", level), 1);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

/// The JSON of a tree without its node ids.
pub fn plain(mut v: Json) -> Json {
    fn walk(v: &mut Json) {
        match v {
            Json::Object(m) => {
                if m.contains_key("id") && m.contains_key("location") {
                    m.insert("id".into(), Json::Null);
                }
                m.values_mut().for_each(walk);
            }
            Json::Array(a) => a.iter_mut().for_each(walk),
            _ => (),
        }
    }
    walk(&mut v);
    v
}

pub fn value<T: serde::Serialize>(t: &T) -> Result<Json, String> {
    serde_json::to_value(t).map_err(|e| format!("!{}", e))
}

fn same(what: &str, got: Json, want: Json) -> Check {
    let (g, w) = (plain(got), plain(want));
    if g == w {
        return Ok(());
    }
    let (g, w) = (g.to_string(), w.to_string());
    let at = g.bytes().zip(w.bytes()).take_while(|(a, b)| a == b).count();
    let around = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(120).min(s.len())..]).to_string();
    Err(format!("{}: {} instead of {}", what, shorten(&around(&g), 300), shorten(&around(&w), 300)))
}

pub fn c24(c: &mut Case) -> Check {
    // sometimes there is no plugin at all
    let none = c.r.chance(15);
    let modules = if none { vec![] } else { world(c, &Wishes { hooks: false, macros: true, failing: false, pure: c.index % 2 == 0 }) };
    // compile never turns hooks on
    let modules: Vec<Module> = modules.into_iter().map(|m| Module { flag: FeatureFlag::default(), ..m }).collect();
    let dir = place(c, "cli")?;
    for d in ["one", "two"] {
        io(std::fs::create_dir(dir.join(d)))?;
        plugin_dir(c, &modules, &dir.join(d))?;
    }
    // files which are not plugins
    io(std::fs::write(dir.join("two").join("README.md"), "x"))?;
    io(std::fs::write(dir.join("two").join("p.wasm"), "x"))?;
    c.count("plugin sets", 1);
    for round in 0..4 {
        let text = match c.r.below(11) {
            10 => c.r.pick(&["", "\n", "\r\n\r\n", " ", "a", "a\nb\n\nc\n"]).to_string(),
            0..=5 if none => c.r.pick(&["", "\n\n", "text", "\\[", "a, b.\n\n\n c", "日本\n"]).to_string(),
            0..=5 => fitted(c, &modules, true).1,
            6 => doc::well_formed(&mut c.r).1.text,
            _ => hostile(&mut c.r, &modules, false),
        };
        let name = match c.r.below(4) {
            0 => "d.[]".to_string(),
            1 => format!("{}.[]", doc::name(&mut c.r, true).replace(['/', '\0'], "_").trim_start_matches('-')),
            2 => "a b.x.[]".to_string(),
            _ => dir.join("abs.[]").to_str().ok_or("!path")?.to_string(),
        };
        c.input(&text);
        let path = dir.join(&name);
        io(std::fs::write(&path, &text))?;
        let before = snapshot(&dir)?;
        let compile = |c: &mut Case, level: &str, json: bool| -> Result<Run, String> {
            let plugs = if c.r.chance(50) { "one" } else { "two" };
            let file = format!("--filename={}", name);
            let mut args = vec!["compile", "--backend", "html", &file, "--output-level", level];
            if json {
                args.push("--json");
            }
            args.extend(["--plugins-dir-path", plugs]);
            let run = brack(c, &dir, &args)?;
            run.sane(&format!("level {}", level))?;
            c.count(&format!("compile runs at level {}", level), 1);
            Ok(run)
        };
        fn read<T: for<'de> serde::Deserialize<'de>>(s: &str) -> Result<T, String> {
            let mut d = serde_json::Deserializer::from_str(s);
            d.disable_recursion_limit();
            T::deserialize(&mut d).map_err(|e| e.to_string())
        }
        // level 1
        let tokens = brack_tokenizer::tokenize::tokenize_str(&text).map_err(|e| format!("!tokenize: {:#}", e))?;
        let run = compile(c, "1", true)?;
        ensure!(run.code == Some(0), "level 1 fails: {}", run.err);
        let printed: Vec<Token> = read(&run.text()?).map_err(|e| format!("level 1 does not read back: {}", e))?;
        ensure!(printed == tokens, "level 1 prints other tokens than the tokenizer's");
        // level 2
        let run = compile(c, "2", true)?;
        let cst = brack_parser::parse::parse(&printed).ok();
        ensure!(cst.is_some() == (run.code == Some(0)), "level 2 ends with {:?}, the parser with {}", run.code, cst.is_some());
        let cst = match cst {
            Some(t) => t,
            None => {
                for (level, json) in [("2", false), ("3", true), ("4", true), ("5", false)] {
                    let run = compile(c, level, json)?;
                    ensure!(run.code == Some(1), "level {} succeeds on a document that does not parse", level);
                    ensure!(run.out.is_empty(), "level {} prints {:?} for a document that does not parse", level, run.text());
                }
                c.count("documents that do not parse", 1);
                continue;
            }
        };
        let printed: CST = read(&run.text()?).map_err(|e| format!("level 2 does not read back: {}", e))?;
        same("level 2 differs from the parser's tree", value(&printed)?, value(&cst)?)?;
        // level 3
        let run = compile(c, "3", true)?;
        ensure!(run.code == Some(0), "level 3 fails: {}", run.err);
        let (ast, errors) = brack_transformer::transform::transform(&printed);
        let printed: AST = read(&run.text()?).map_err(|e| format!("level 3 does not read back: {}", e))?;
        same("level 3 is not the transformation of level 2", value(&printed)?, value(&ast)?)?;
        if !errors.is_empty() {
            for (level, json) in [("4", true), ("4", false), ("5", false)] {
                let run = compile(c, level, json)?;
                ensure!(run.code == Some(1), "level {} succeeds on a document with a syntax error", level);
                ensure!(run.out.is_empty(), "level {} prints {:?} for a document with a syntax error", level, run.text());
            }
            c.count("documents with syntax errors", 1);
            c.nontrivial(true, fnv(text.as_bytes()));
            continue;
        }
        // level 4: the macros answer alike whichever ids the nodes have, except m0, m1 and m4
        let mut w = World::load(c, modules.clone(), "c24")?;
        let want = brack_expander::expand::expander(&printed, &mut w.plugins);
        let run = compile(c, "4", true)?;
        ensure!(want.is_ok() == (run.code == Some(0)), "level 4 ends with {:?}, the expander with {:?}", run.code, want.is_ok());
        if let Ok(tree) = &want {
            let printed: AST = read(&run.text()?).map_err(|e| format!("level 4 does not read back: {}", e))?;
            let (mut a, mut b) = (value(&printed)?.to_string(), value(tree)?.to_string());
            if c.index % 2 == 1 {
                a = veil(&a);
                b = veil(&b);
            }
            same(
                "level 4 is not the expansion of level 3",
                read(&a).map_err(|e| format!("!{}", e))?,
                read(&b).map_err(|e| format!("!{}", e))?,
            )?;
            let result = brack_codegen::generate::generate(tree, &mut w.plugins);
            let run = compile(c, "5", false)?;
            ensure!(result.is_ok() == (run.code == Some(0)), "level 5 ends with {:?}, the generator with {:?}", run.code, result.is_ok());
            if let Ok(s) = result {
                let mut got = run.text()?;
                ensure!(got.pop() == Some('\n'), "the output does not end");
                let (mut g, mut t) = (got, s);
                if c.index % 2 == 1 {
                    g = veil(&g);
                    t = veil(&t);
                }
                ensure!(g == t, "level 5 prints {:?}, level 4 generates {:?}", shorten(&g, 300), shorten(&t, 300));
                if c.index % 2 == 0 {
                    let again = compile(c, "5", false)?;
                    ensure!(again.out == run.out, "the same document gives {:?} and then {:?}", run.text(), again.text());
                    c.count("outputs compared between processes", 1);
                }
                // pure plugins: the expanded tree printed at level 4 means the same
                if c.index % 2 == 0 {
                    let mut w = World::load(c, modules.clone(), "c24")?;
                    let s = brack_codegen::generate::generate(&printed, &mut w.plugins).map_err(|e| format!("level 4 does not generate: {:#}", e))?;
                    ensure!(s == g, "level 5 is not the generation of level 4");
                }
                c.count("documents generated", 1);
                c.nontrivial(true, fnv(text.as_bytes()));
            } else {
                ensure!(run.out.is_empty(), "a failing compilation prints {:?}", run.text());
            }
        } else {
            ensure!(run.out.is_empty(), "a failing compilation prints {:?}", run.text());
            let run = compile(c, "5", false)?;
            ensure!(run.code == Some(1) && run.out.is_empty(), "level 5 succeeds although a macro fails: {:?}", run.text());
        }
        // two plugin files of one module: whichever is taken, it is always the same
        if round == 0 && !modules.is_empty() {
            let twin = World::twin(&modules[0]);
            let (a, b) = (probe(&c.wasm, &metadata(&modules[0].entries))?, probe(&c.wasm, &metadata(&twin.entries))?);
            let mut outs = vec![];
            for (d, first) in [("t1", true), ("t2", false)] {
                let d = dir.join(d);
                io(std::fs::create_dir(&d))?;
                plugin_dir(c, &modules[1..], &d)?;
                for k in 0..2 {
                    let (n, bytes) = if (k == 0) == first { ("1aaa", &a) } else { ("2zzz", &b) };
                    io(std::fs::write(d.join(format!("{}_{}.wasm", modules[0].name, n)), bytes))?;
                }
                let run = brack(c, &dir, &["compile", "-b", "html", &format!("--filename={}", name), "-p", d.to_str().ok_or("!path")?])?;
                outs.push((run.code, run.out));
                io(std::fs::remove_dir_all(&d))?;
            }
            if c.index % 2 == 0 {
                ensure!(outs[0] == outs[1], "which of two plugin files of a module is used depends on the order of the files");
            }
            c.count("plugin file orders compared", 1);
        }
        let after = snapshot(&dir)?;
        ensure!(before == after, "compile changed files: {:?}", changes(&before, &after));
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

/// Hides the hashes which macros compute from node ids, and everything computed from those.
fn veil(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == ':' && i + 17 < b.len() && b[i + 1..i + 17].iter().all(|c| c.is_ascii_hexdigit()) && b[i + 17] == '}' {
            out.push_str(":*}");
            i += 18;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

/// C13 at the process boundary: failures of every kind in compile and in build.
pub fn c13_processes(c: &mut Case) -> Check {
    let mut modules = world(c, &Wishes { hooks: false, macros: true, failing: true, pure: true });
    let dir = place(c, "cli")?;
    let plugs = dir.join("plugs");
    io(std::fs::create_dir(&plugs))?;
    let (_, good, _) = fitted(c, &modules.clone(), true);
    let kind = *c.r.pick(&[Kind::Square, Kind::Curly, Kind::Angle]);
    let k = c.r.below(12);
    let victim = c.r.below(modules.len());
    let way = c.r.below(4);
    let mut text = good.clone();
    let mut broken: Option<Vec<u8>> = None;
    let note;
    match way {
        0 | 1 => {
            let (mut d, _, _) = fitted(c, &modules.clone(), true);
            let name = modules[victim].name.clone();
            spoil(&mut c.r, &mut d, &name, k, kind);
            text = doc::print(&mut c.r, &d, false, None).ok_or("!printing")?.text;
            note = format!("a call of bad{} as {:?}", k, kind);
        }
        2 => {
            let (what, bytes) = broken_plugin(c)?;
            broken = Some(bytes);
            note = what.to_string();
        }
        _ => {
            // a hook that fails (only build turns hooks on)
            let which = *c.r.pick(&["document", "stmt", "expr", "text"]);
            let call = *c.r.pick(&["f_trap", "f_err", "f_err0", "f_rc", "f_outerr", "f_utf8", "f_oob", "f_div", "f_stack", "gone"]);
            let ret = if which == "document" || which == "stmt" { Type::TBlock } else { Type::TInline };
            let m = &mut modules[victim];
            m.entries.retain(|e| e.command != which);
            m.entries.push(crate::plug::Entry { command: which.into(), call: call.into(), args: vec![Type::TInline], ret });
            match which {
                "document" => m.flag.document_hook = true,
                "stmt" => m.flag.stmt_hook = true,
                "expr" => m.flag.expr_hook = true,
                _ => m.flag.text_hook = true,
            }
            text = "hello".into();
            note = format!("a {} hook that is {}", which, call);
        }
    }
    c.input(&text);
    c.nontrivial(true, fnv(format!("{}{}", note, text).as_bytes()));
    c.count(&format!("{} at the process boundary", ["failing calls", "failing calls", "plugins that do not load", "failing hooks"][way]), 1);
    plugin_dir(c, &modules, &plugs)?;
    if let Some(b) = &broken {
        io(std::fs::write(plugs.join("zz_1.wasm"), b))?;
    }
    io(std::fs::write(dir.join("d.[]"), &text))?;
    let before = snapshot(&dir)?;
    if way < 3 {
        for level in ["5", "4"] {
            if level == "4" && (way < 2 && kind != Kind::Angle) {
                continue;
            }
            let mut args = vec!["compile", "-p", "plugs", "-b", "html", "-f", "d.[]", "--output-level", level];
            if level == "4" && c.r.chance(50) {
                args.push("--json");
            }
            let run = brack(c, &dir, &args)?;
            run.sane("compile")?;
            ensure!(run.code == Some(1), "compile at level {} succeeds in spite of {}", level, note);
            ensure!(run.out.is_empty(), "compile at level {} prints {:?} in spite of {}", level, shorten(&String::from_utf8_lossy(&run.out), 200), note);
            ensure!(!run.err.trim().is_empty(), "compile fails at {} without an error message", note);
            let after = snapshot(&dir)?;
            ensure!(before == after, "a failing compile changed {:?}", changes(&before, &after));
            c.count("failing compile runs", 1);
        }
    }
    // the same in a project
    let root = dir.join("project");
    let extra = broken.as_deref();
    project(c, &root, &modules, "html", extra, &[])?;
    io(std::fs::create_dir(root.join("docs")))?;
    io(std::fs::write(root.join("docs/good.[]"), if way == 3 { "" } else { &good }))?;
    io(std::fs::write(root.join("docs/bad.[]"), &text))?;
    if way == 3 {
        io(std::fs::remove_file(root.join("docs/good.[]")))?;
    }
    let before = snapshot(&root)?;
    let run = brack(c, &root, &["build"])?;
    run.sane("build")?;
    ensure!(run.code == Some(1), "build succeeds in spite of {}", note);
    ensure!(!run.text()?.contains("ucceed"), "build reports success in spite of {}", note);
    ensure!(!run.err.trim().is_empty(), "build fails at {} without an error message", note);
    let strip = |s: BTreeMap<PathBuf, Vec<u8>>| -> BTreeMap<PathBuf, Vec<u8>> {
        s.into_iter().filter(|(k, _)| k != Path::new("out") && k != Path::new("out/good.html")).collect()
    };
    let after = strip(snapshot(&root)?);
    ensure!(before == after, "a failing build changed {:?}", changes(&before, &after));
    c.count("failing build runs", 1);
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

/// A file that cannot be a plugin.
fn broken_plugin(c: &mut Case) -> Result<(&'static str, Vec<u8>), String> {
    let mut sound = probe(&c.wasm, "[]")?;
    Ok(match c.r.below(9) {
        0 => ("an empty plugin file", vec![]),
        1 => ("a plugin file of rubbish", b"\0asm\x01\0\0\0rubbish".to_vec()),
        2 => ("a plugin file of HTML", b"<html>Not Found</html>".to_vec()),
        3 => {
            let n = c.r.range(8, sound.len() - 1);
            sound.truncate(n);
            ("a plugin file cut short", sound)
        }
        4 => ("a plugin with no exports", b"\0asm\x01\0\0\0".to_vec()),
        5 => ("metadata which is not JSON", probe(&c.wasm, "nonsense")?),
        6 => ("metadata which is no list of commands", probe(&c.wasm, "{\"a\": 1}")?),
        7 => ("metadata with an unknown type", probe(&c.wasm, "[{\"command_name\":\"a\",\"call_name\":\"s0\",\"argument_types\":[],\"return_type\":\"TBanana\"}]")?),
        _ => ("metadata with a missing field", probe(&c.wasm, "[{\"command_name\":\"a\",\"argument_types\":[],\"return_type\":\"TInline\"}]")?),
    })
}

fn toml_string(s: &str) -> String {
    let mut out = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if c.is_control() => out.push_str(&format!("\\U{:08x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

/// A project whose plugins have all been fetched already.
pub fn project(c: &mut Case, root: &Path, modules: &[Module], backend: &str, broken: Option<&[u8]>, authors: &[&str]) -> Check {
    io(std::fs::create_dir_all(root.join("plugins")))?;
    let mut toml = format!(
        "[document]\nname = \"x\"\nversion = \"0.1.0\"\nbackend = {}\nauthors = [{}]\n",
        toml_string(backend),
        authors.iter().map(|a| toml_string(a)).collect::<Vec<_>>().join(", ")
    );
    if c.r.chance(50) {
        toml.push_str("[plugins]\n");
    }
    let mut all: Vec<(String, Vec<u8>, FeatureFlag)> = vec![];
    for m in modules {
        all.push((m.name.clone(), probe(&c.wasm, &metadata(&m.entries))?, m.flag.clone()));
    }
    if let Some(b) = broken {
        all.push(("zz".into(), b.to_vec(), FeatureFlag::default()));
    }
    for (name, bytes, flag) in all {
        let mut entry = format!("schema = \"github\"\nowner = \"o\"\nrepo = {}\nversion = \"v{}\"\n", toml_string(&name), c.r.below(3));
        for (which, on) in [("document_hook", flag.document_hook), ("stmt_hook", flag.stmt_hook), ("expr_hook", flag.expr_hook), ("text_hook", flag.text_hook)] {
            if on || c.r.chance(30) {
                entry.push_str(&format!("{} = {}\n", which, on));
            }
        }
        let schema: brack_project_manager::plugin::PluginSchema = toml::from_str(&entry).map_err(|e| format!("!{}", e))?;
        io(std::fs::write(root.join("plugins").join(format!("{}_{}.wasm", name, schema.hash_sha256(backend))), bytes))?;
        toml.push_str(&format!("[plugins.{}]\n{}", toml_string(&name), entry));
    }
    io(std::fs::write(root.join("Brack.toml"), toml))
}

fn file_name(r: &mut Rng) -> String {
    loop {
        let n = match r.below(6) {
            0 => "main".to_string(),
            1 => "a.b".to_string(),
            2 => " x y ".to_string(),
            3 => ".hidden".to_string(),
            _ => doc::name(r, true),
        };
        if !n.contains(['/', '\0']) && n != "." && n != ".." {
            return n;
        }
    }
}

pub fn c15(c: &mut Case) -> Check {
    let modules = if c.r.chance(15) { vec![] } else { world(c, &Wishes { hooks: true, macros: true, failing: true, pure: true }) };
    let dir = place(c, "cli")?;
    let root = dir.join("project");
    let backend = *c.r.pick(&["html", "tex", "md", "x.y", "h", "[]", ""]);
    project(c, &root, &modules, backend, None, &["é <a@b>"])?;
    let docs = root.join("docs");
    io(std::fs::create_dir(&docs))?;
    let mut want: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
    let mut fails = vec![];
    let fault = c.r.chance(25);
    let n = c.r.below(5) + usize::from(fault);
    let mut stems: Vec<String> = vec![];
    let mut inputs = String::new();
    for i in 0..n {
        let stem = file_name(&mut c.r);
        if stems.contains(&stem) {
            continue;
        }
        stems.push(stem.clone());
        let (mut d, mut text, commands) = if modules.is_empty() {
            let (mut d, p) = doc::well_formed(&mut c.r);
            if c.r.chance(80) {
                // no plugins, no commands
                for item in d.stmts.iter_mut().flatten().flatten() {
                    if matches!(item, doc::Item::Cmd(_)) {
                        *item = doc::Item::Text(vec!["x".into()]);
                    }
                }
                (d.clone(), doc::print(&mut c.r, &d, false, None).ok_or("!printing")?.text, 0)
            } else {
                (d, p.text, p.commands)
            }
        } else {
            fitted(c, &modules.clone(), true)
        };
        if fault && i == 0 {
            match c.r.below(5) {
                0 => text = format!("{}[a.b c", text),
                1 => text = format!("{}\n\n[a b]\n", text),
                2 => text = format!("{}]", text),
                3 => text = format!("{}{{a.b c, }}", text),
                _ => {
                    let m = modules.first().map(|m| m.name.clone()).unwrap_or("q".into());
                    let k = c.r.below(12);
                    let kind = *c.r.pick(&[Kind::Square, Kind::Curly, Kind::Angle]);
                    spoil(&mut c.r, &mut d, &m, k, kind);
                    text = doc::print(&mut c.r, &d, false, None).ok_or("!printing")?.text;
                }
            }
        }
        io(std::fs::write(docs.join(format!("{}.[]", stem)), &text))?;
        inputs.push_str(&format!("{:?}: {:?}\n", stem, text));
        // the document alone, by the model
        let mut w = World::load(c, modules.clone(), "c15")?;
        let result = match front(&text) {
            Ok(_) if modules.is_empty() && commands > 0 => None,
            Ok((_, ast, errors)) if errors.is_empty() => {
                let mut calls = 0;
                match w.expand(&ast, &ast, &mut calls).and_then(|t| w.eval(&t)) {
                    Ok(s) => Some(s),
                    Err(Fail::Expected(_)) => None,
                    Err(Fail::Harness(m)) => return Err(format!("!{}", m)),
                }
            }
            _ => None,
        };
        match result {
            Some(s) => {
                want.insert(PathBuf::from(format!("out/{}.{}", stem, backend)), s.into_bytes());
            }
            None => fails.push(stem),
        }
    }
    c.input(&inputs);
    // what is not a document
    for (name, text) in [("notes.txt", "[a.b"), ("x.md", "[a.b"), ("[]", "[a.b"), ("main.[].bak", "[a.b")] {
        if c.r.chance(40) {
            io(std::fs::write(docs.join(name), text))?;
        }
    }
    if c.r.chance(30) {
        // a name which is no text
        let name = c.r.pick(&[&b"caf\xe9.png"[..], b"\xff", b"a.[].\xc3", b"\xed\xa0\x80.txt"]).to_vec();
        io(std::fs::write(docs.join(OsString::from_vec(name)), "[a.b"))?;
    }
    if c.r.chance(40) {
        io(std::fs::create_dir(docs.join("sub")))?;
        io(std::fs::write(docs.join("sub/inner.[]"), "[a.b"))?;
    }
    let mut stale = BTreeMap::new();
    if c.r.chance(50) {
        io(std::fs::create_dir(root.join("out")))?;
        for (name, text) in [("old.html", "old"), ("main.tex", "other backend"), ("sub.[]", "[a.b")] {
            if c.r.chance(50) {
                io(std::fs::write(root.join("out").join(name), text))?;
                stale.insert(PathBuf::from("out").join(name), text.as_bytes().to_vec());
            }
        }
        if c.r.chance(30) {
            let name = PathBuf::from(OsString::from_vec(c.r.pick(&[&b"caf\xe9.html"[..], b"\xff", b"a.\xc3"]).to_vec()));
            io(std::fs::write(root.join("out").join(&name), "old"))?;
            stale.insert(PathBuf::from("out").join(name), b"old".to_vec());
        }
        for k in want.keys() {
            if c.r.chance(50) {
                io(std::fs::write(root.join(k), "a much longer stale output than what is going to be written ".repeat(30)))?;
                stale.remove(k);
            }
        }
    }
    for (name, text) in [("README.md", "[a.b"), ("main.[]", "[a.b"), ("docs.[]", "x")] {
        if c.r.chance(30) {
            io(std::fs::write(root.join(name), text))?;
        }
    }
    let before = snapshot(&root)?;
    let is_out = |k: &Path| k.starts_with("out") && k != Path::new("out");
    let rest = |s: &BTreeMap<PathBuf, Vec<u8>>| -> BTreeMap<PathBuf, Vec<u8>> {
        s.iter().filter(|(k, _)| !k.starts_with("out")).map(|(k, v)| (k.clone(), v.clone())).collect()
    };
    let run = brack(c, &root, &["build"])?;
    run.sane("build")?;
    let after = snapshot(&root)?;
    ensure!(rest(&before) == rest(&after), "build changed {:?}", changes(&rest(&before), &rest(&after)));
    c.nontrivial(!stems.is_empty(), fnv(inputs.as_bytes()));
    if !fails.is_empty() {
        ensure!(run.code == Some(1), "build succeeds although {:?} cannot be compiled", fails);
        ensure!(!run.text()?.contains("ucceed"), "build reports success although {:?} cannot be compiled", fails);
        c.count("builds with a failing document", 1);
    } else {
        ensure!(run.code == Some(0), "build fails: {}", shorten(&run.err, 500));
        for (k, v) in &stale {
            want.entry(k.clone()).or_insert(v.clone());
        }
        let got: BTreeMap<PathBuf, Vec<u8>> = after.iter().filter(|(k, _)| is_out(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
        if got != want {
            let which = got.keys().chain(want.keys()).find(|k| got.get(*k) != want.get(*k)).cloned().unwrap_or_default();
            let show = |m: &BTreeMap<PathBuf, Vec<u8>>| m.get(&which).map(|v| shorten(&String::from_utf8_lossy(v), 300));
            return Err(format!("output {:?} is {:?} instead of {:?}; {:?}", which, show(&got), show(&want), changes(&want, &got)));
        }
        c.count("outputs compared", want.len());
        let again = brack(c, &root, &["build"])?;
        ensure!(again.code == Some(0), "building again fails: {}", shorten(&again.err, 500));
        let third = snapshot(&root)?;
        ensure!(after == third, "building again changes {:?}", changes(&after, &third));
        c.count("successful builds", 1);
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

pub fn c18(c: &mut Case) -> Check {
    let name = match c.r.below(8) {
        0 => c.r.pick(&["\"", "a\"b", "'", "a\\b", "\\", "\\u0041", "a\nb", "a\tb", "\u{1}", "\u{7f}", "\r", "a\r\nb", "\u{85}", "\u{2028}", "[x]", "#", "a = 1", "\"\"\"", "${HOME}", "%s", "{}", "true", "1", "-x", "--name", "~", " ", " a ", "...", "a.b", ".git", "名前", "e\u{301}", "👨‍👩‍👧"]).to_string(),
        1 => "n".repeat(c.r.range(1, 240)),
        2 => {
            let mut s = String::new();
            for _ in 0..c.r.range(1, 6) {
                s.push(char::from(c.r.range(1, 127) as u8));
            }
            s
        }
        _ => {
            let n = c.r.range(1, 4);
            (0..n).map(|_| doc::name(&mut c.r, true)).collect::<Vec<_>>().join(c.r.pick(&["", "\"", "\\", "\n", " "]))
        }
    };
    let name = name.replace(['/', '\0'], "_");
    if name == "." || name == ".." || name.is_empty() || name.len() > 250 {
        return Ok(());
    }
    let dir = place(c, "cli")?;
    c.input(&name);
    c.nontrivial(true, fnv(name.as_bytes()));
    let arg = format!("--name={}", name);
    let obstacle = c.r.below(10);
    let at = dir.join(&name);
    io(std::fs::write(dir.join("neighbour.txt"), "x"))?;
    if at.exists() {
        return Ok(());
    }
    match obstacle {
        0 => {
            io(std::fs::write(&at, c.r.pick(&["a file", "", "\n", "[document]\n"])))?;
            if c.r.chance(30) {
                use std::os::unix::fs::PermissionsExt;
                io(std::fs::set_permissions(&at, std::fs::Permissions::from_mode(*c.r.pick(&[0o444, 0o600, 0o755]))))?;
            }
        }
        1 => io(std::fs::create_dir(&at))?,
        2 => {
            io(std::fs::create_dir_all(at.join("docs")))?;
            io(std::fs::write(at.join("docs/main.[]"), "precious"))?;
            if c.r.chance(50) {
                io(std::fs::write(at.join("Brack.toml"), "precious"))?;
            }
        }
        3 => io(std::os::unix::fs::symlink("nowhere", &at))?,
        4 => {
            io(std::fs::create_dir(dir.join("real")))?;
            if name != "real" {
                io(std::os::unix::fs::symlink("real", &at))?;
            }
        }
        5 => {
            // a half-made project
            io(std::fs::create_dir(&at))?;
            io(std::fs::write(at.join(".gitignore"), "mine"))?;
        }
        _ => (),
    }
    let before = snapshot(&dir)?;
    let run = brack(c, &dir, &["new", &arg])?;
    run.sane("new")?;
    let after = snapshot(&dir)?;
    if obstacle < 6 {
        ensure!(run.code == Some(1), "new succeeds where something exists already");
        ensure!(before == after, "new changed {:?}", changes(&before, &after));
        c.count("refused", 1);
    } else {
        ensure!(run.code == Some(0), "new fails: {}", run.err);
        let news: Vec<&PathBuf> = after.keys().filter(|k| !before.contains_key(*k)).collect();
        let base = PathBuf::from(&name);
        for f in ["Brack.toml", ".gitignore", "docs/main.[]"] {
            ensure!(after.contains_key(&base.join(f)), "there is no {}: {:?}", f, news);
        }
        ensure!(before.iter().all(|(k, v)| after.get(k) == Some(v)), "new changed {:?}", changes(&before, &after));
        ensure!(news.iter().all(|k| k.starts_with(&base)), "new writes elsewhere: {:?}", news);
        ensure!(after[&base.join("docs/main.[]")].is_empty(), "the main document is not empty");
        let ignored = String::from_utf8_lossy(&after[&base.join(".gitignore")]).to_string();
        for f in ["plugins", "out"] {
            ensure!(
                ignored.lines().any(|l| l.trim().trim_matches('/') == f),
                "{} is not ignored: {:?}",
                f,
                ignored
            );
        }
        let mut p = brack_project_manager::project::Project::new(&at);
        p.load_brack_toml().map_err(|e| format!("the new Brack.toml does not load: {:#}", e))?;
        ensure!(p.config.document.name == name, "the project is named {:?}", p.config.document.name);
        // and it is a project: building it works
        if c.r.chance(10) {
            let run = brack(c, &at, &["build"])?;
            ensure!(run.code == Some(0), "the new project does not build: {}", run.err);
            c.count("new projects built", 1);
        }
        let run = brack(c, &dir, &["new", &arg])?;
        ensure!(run.code == Some(1) && snapshot(&dir)?.iter().filter(|(k, _)| !k.starts_with(base.join("out")) && !k.starts_with(base.join("plugins"))).all(|(k, v)| after.get(k) == Some(v)), "making it again does not fail, or changes something");
        c.count("created", 1);
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}
