//! Which plugins compile finds (C29), and what becomes of odd command lines (C30).
use crate::case::Case;
use crate::cli::{brack_with, changes, io, place, snapshot, Run};
use crate::doc;
use crate::ensure;
use crate::front::{front, Check};
use crate::gen::bind;
use crate::lsp::lsp_text;
use crate::plug::{answer, metadata, probe, Entry};
use crate::rng::fnv;
use crate::text::shorten;
use brack_plugin::types::Type;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::Path;

fn entry(command: &str, call: usize) -> Entry {
    Entry { command: command.into(), call: format!("s{}", call), args: vec![], ret: Type::TInline }
}

/// What the inline command `w` of the file with this number answers.
fn said(call: usize) -> Result<String, String> {
    let input = bind(&[], &[]).unwrap_or_default();
    answer(&format!("s{}", call), &mut 0, &input)
}

pub fn c29(c: &mut Case) -> Check {
    let dir = place(c, "cli")?;
    // the modules, each with one file or with several
    let mut modules: Vec<String> = vec![];
    for _ in 0..c.r.range(1, 4) {
        let base = doc::name(&mut c.r, true).replace(['/', '\0', '\n', '\r'], "-");
        let m = match c.r.below(6) {
            0 => format!("{}_{}", base, c.r.pick(&["x", "1", "b_c", "_"])),
            1 => format!("_{}", base),
            2 if c.r.chance(30) => format!("{}{}", c.r.pick(&["#", "~", "$", "%", "-", "\"", "="]), base),
            2 => c.r.pick(&["_", "a_", "__", "a-b", "wasm", "m_wasm", "README", "0"]).to_string(),
            _ => base,
        };
        if !modules.contains(&m) {
            modules.push(m);
        }
    }
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut choices: Vec<Vec<usize>> = vec![];
    for m in &modules {
        let copies = if c.r.chance(25) { c.r.range(2, 4) } else { 1 };
        let mut mine = vec![];
        for _ in 0..copies {
            let suffix: String = (0..*c.r.pick(&[1usize, 2, 8, 64])).map(|_| *c.r.pick(&['0', 'a', 'Z', '9', 'f', 'q'])).collect();
            let name = format!("{}_{}.wasm", m, suffix);
            if files.iter().any(|f| f.0 == name) {
                continue;
            }
            let call = loop {
                let k = c.r.below(8);
                if !mine.contains(&k) {
                    break k;
                }
            };
            files.push((name, probe(&c.wasm, &metadata(&[entry("w", call), entry("v", 0)]))?));
            mine.push(call);
        }
        choices.push(mine);
    }
    // whatever else is there
    let mut decoys: Vec<(String, bool)> = vec![];
    for _ in 0..c.r.range(0, 5) {
        let m = c.r.pick(&["decoy", "x", "é"]).to_string();
        let name = match c.r.below(16) {
            0 => "README.md".to_string(),
            1 => format!("{}_abc.wasm.tmp", m),
            2 => format!("{}_abc.wasm.{}.tmp", m, c.r.below(9999)),
            3 => format!("{}.wasm", m),
            4 => format!("{}_.wasm", m),
            5 => "_abc.wasm".to_string(),
            6 => format!("{}_a-b.wasm", m),
            7 => format!("{}_é.wasm", m),
            8 => format!("{}_abc.WASM", m),
            9 => format!("{}_abc.wasm2", m),
            10 => format!("{}_abcXwasm", m),
            11 => format!("{}_abc.wasm.swp", m),
            12 => format!("{}_a b.wasm", m),
            13 => format!("{}_abc.wat", m),
            14 => format!("{}-abc.wasm", m),
            _ => ".gitkeep".to_string(),
        };
        if !decoys.iter().any(|d| d.0 == name) {
            let works = c.r.chance(50);
            decoys.push((name, works));
        }
    }
    for at in ["one", "two"] {
        io(std::fs::create_dir(dir.join(at)))?;
        let mut all: Vec<(String, Vec<u8>)> = files.clone();
        for (name, works) in &decoys {
            all.push((name.clone(), if *works { probe(&c.wasm, &metadata(&[entry("w", 0), entry("v", 0)]))? } else { b"no plugin".to_vec() }));
        }
        c.r.shuffle(&mut all);
        for (name, bytes) in all {
            if c.r.chance(10) {
                io(std::fs::create_dir_all(dir.join("store")))?;
                io(std::fs::write(dir.join("store").join(&name), bytes))?;
                io(std::os::unix::fs::symlink(dir.join("store").join(&name), dir.join(at).join(&name)))?;
            } else {
                io(std::fs::write(dir.join(at).join(name), bytes))?;
            }
        }
        if c.r.chance(30) {
            io(std::fs::create_dir(dir.join(at).join("sub")))?;
            io(std::fs::write(dir.join(at).join("sub/inner_1.wasm"), "no plugin"))?;
        }
    }
    // another directory, which is not the one asked for
    io(std::fs::create_dir(dir.join("other")))?;
    for m in &modules {
        let bytes = if c.r.chance(50) { probe(&c.wasm, &metadata(&[entry("w", 7), entry("v", 7)]))? } else { b"no plugin".to_vec() };
        io(std::fs::write(dir.join("other").join(format!("{}_1.wasm", m)), bytes))?;
    }
    io(std::fs::write(dir.join("file"), "x"))?;
    let text: String = modules.iter().map(|m| format!("[{}.w]", m)).collect();
    io(std::fs::write(dir.join("d.[]"), &text))?;
    let note = format!("{} with {:?} and {:?}", text, files.iter().map(|f| &f.0).collect::<Vec<_>>(), decoys);
    c.input(&note);
    c.nontrivial(true, fnv(note.as_bytes()));
    let mut answers: Vec<String> = vec![];
    for at in ["one", "two", "one"] {
        let given = match c.r.below(4) {
            0 => dir.join(at).display().to_string(),
            1 => format!("{}/", at),
            2 => format!("./other/../{}", at),
            _ => at.to_string(),
        };
        let (args, env): (Vec<String>, Vec<(&str, OsString)>) = match c.r.below(4) {
            0 => (vec![], vec![("BRACK_PLUGINS_PATH", given.into())]),
            1 => (vec!["-p".into(), given], vec![("BRACK_PLUGINS_PATH", c.r.pick(&["other", "nowhere", "", "file"]).into())]),
            2 => (vec![format!("--plugins-dir-path={}", given)], vec![]),
            _ => (vec!["-p".into(), given], vec![]),
        };
        let mut line: Vec<String> = vec!["compile".into(), "-b".into(), "html".into(), "-f".into(), "d.[]".into()];
        line.extend(args);
        let run = brack_with(c, &dir, &line, &env)?;
        run.sane("compile")?;
        ensure!(run.code == Some(0), "compile does not find {:?}: {}", files.iter().map(|f| &f.0).collect::<Vec<_>>(), shorten(&run.err, 400));
        let got = run.text()?;
        let mut rest = got.strip_suffix('\n').unwrap_or(&got);
        for (m, mine) in modules.iter().zip(&choices) {
            let mut hit = None;
            for k in mine {
                // the longest one that fits: the answer of one file may begin like another's
                let s = said(*k)?;
                if rest.starts_with(&s) && hit.as_ref().map(|h: &String| h.len() < s.len()).unwrap_or(true) {
                    hit = Some(s);
                }
            }
            let s = hit.ok_or_else(|| format!("module {:?} is not one of its files: {}", m, shorten(rest, 100)))?;
            rest = &rest[s.len()..];
        }
        ensure!(rest.is_empty(), "the output does not end: {:?}", shorten(rest, 100));
        answers.push(got);
        c.count("plugin directories read", 1);
    }
    ensure!(answers.windows(2).all(|w| w[0] == w[1]), "the same file names give {:?}", answers);
    if choices.iter().any(|m| m.len() > 1) {
        c.count("directories with several files for a module", 1);
    }
    // what is no plugin defines no module
    if let Some((name, _)) = decoys.first() {
        let stem = name.split('.').next().unwrap_or("").to_string();
        let mut guesses = vec![stem.clone()];
        if let Some((a, _)) = stem.rsplit_once('_') {
            guesses.push(a.to_string());
        }
        guesses.push(stem.split('_').next().unwrap_or("").to_string());
        guesses.retain(|g| !g.is_empty() && !modules.contains(g));
        if !guesses.is_empty() {
            let g = c.r.pick(&guesses).clone();
            io(std::fs::write(dir.join("e.[]"), format!("[{}.w]", g)))?;
            let run = brack_with(c, &dir, &["compile", "-b", "html", "-f", "e.[]", "-p", "one"], &[])?;
            run.sane("compile")?;
            ensure!(run.code == Some(1) && run.out.is_empty(), "{:?} defines the module {:?}", name, g);
            c.count("files which are no plugins", 1);
        }
    }
    // a module is loaded whether or not a document can name it
    if c.r.chance(40) {
        let odd = c.r.pick(&[".p", "..", "...x", ".p_q", "a b", " ", "a.b", "x\\", "[p", "-p", ".wasm", "a,b", "\u{7f}", "é."]).to_string();
        let name = format!("{}_{}.wasm", odd, c.r.pick(&["1", "abc", "0Z"]));
        let works = c.r.chance(30);
        let bytes = if works { probe(&c.wasm, &metadata(&[entry("w", 0)]))? } else { b"no plugin".to_vec() };
        io(std::fs::write(dir.join("one").join(&name), bytes))?;
        let run = brack_with(c, &dir, &["compile", "-b", "html", "-f", "d.[]", "-p", "one"], &[])?;
        run.sane("compile")?;
        if works {
            ensure!(run.code == Some(0) && run.text()? == answers[0], "the file {:?} changes the output: {}", name, shorten(&run.err, 300));
        } else {
            ensure!(run.code == Some(1) && run.out.is_empty(), "the file {:?} is not loaded", name);
        }
        io(std::fs::remove_file(dir.join("one").join(&name)))?;
        c.count("modules no document can name", 1);
    }
    // and where there is nothing to read, compile says so
    if c.r.chance(40) {
        let (args, env): (Vec<&str>, Vec<(&str, OsString)>) = match c.r.below(4) {
            0 => (vec![], vec![]),
            1 => (vec!["-p", "nowhere"], vec![("BRACK_PLUGINS_PATH", "one".into())]),
            2 => (vec!["-p", "file"], vec![]),
            _ => (vec![], vec![("BRACK_PLUGINS_PATH", "nowhere".into())]),
        };
        let mut line = vec!["compile", "-b", "html", "-f", "d.[]"];
        line.extend(args);
        let run = brack_with(c, &dir, &line, &env)?;
        run.sane("compile")?;
        ensure!(run.code == Some(1) && run.out.is_empty() && !run.err.trim().is_empty(), "compile without a plugin directory ({:?}, {:?}): {:?}", line, env, run.code);
        c.count("missing plugin directories", 1);
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

/// Every program ends by itself; and when it fails it says why, on standard error alone.
fn judge(run: &Run, want: bool, what: &str) -> Check {
    if run.signal == Some(9) {
        return Err(format!("!{} was killed", what));
    }
    ensure!(run.signal.is_none(), "{} died of signal {:?}: {}", what, run.signal, shorten(&run.err, 300));
    ensure!(!run.err.contains("panicked at"), "{} panicked: {}", what, shorten(&run.err, 400));
    ensure!(matches!(run.code, Some(0..=2)), "{} ends with {:?}: {}", what, run.code, shorten(&run.err, 300));
    let succeeded = run.code == Some(0);
    ensure!(succeeded == want, "{} {}: {} {}", what, if succeeded { "succeeds" } else { "fails" }, shorten(&run.err, 400), shorten(&String::from_utf8_lossy(&run.out), 100));
    if !want {
        ensure!(!run.err.trim().is_empty(), "{} fails without a word", what);
        ensure!(run.out.is_empty(), "{} fails, and prints {:?}", what, shorten(&String::from_utf8_lossy(&run.out), 200));
    }
    Ok(())
}

fn diagnosed(text: &str, err: &str) -> Check {
    if let Ok((_, _, errors)) = front(text) {
        for (message, _) in &errors {
            let n = errors.iter().filter(|e| e.0 == *message).count();
            let shown = err.matches(message.as_str()).count();
            ensure!(shown >= n, "{:?} is reported {} times of {}: {}", message, shown, n, shorten(err, 500));
        }
    }
    Ok(())
}

pub fn c30(c: &mut Case) -> Check {
    let dir = place(c, "cli")?;
    io(std::fs::create_dir(dir.join("plugs")))?;
    io(std::fs::write(dir.join("plugs/a_1.wasm"), probe(&c.wasm, &metadata(&[Entry { command: "b".into(), call: "s1".into(), args: vec![Type::TArray(Box::new(Type::TInline))], ret: Type::TInline }]))?))?;
    io(std::fs::create_dir(dir.join("none")))?;
    io(std::fs::create_dir(dir.join("broken")))?;
    io(std::fs::write(dir.join("broken/a_1.wasm"), "no plugin"))?;
    io(std::fs::write(dir.join("good.[]"), "text [a.b x, y]"))?;
    io(std::fs::write(dir.join("plain.[]"), "only\n\ntext"))?;
    io(std::fs::write(dir.join("empty.[]"), ""))?;
    io(std::fs::write(dir.join("good.md"), "text"))?;
    // what is no UTF-8: anywhere, at the end, cut short, or encoded otherwise
    let latin: &[u8] = c.r.pick(&[
        &b"caf\xe9 [a.b x]"[..],
        b"caf\xe9",
        b"caf\xc3",
        b"a\xf0\x9f\x98",
        b"\xe3\x81",
        b"\xff",
        b"\xff\xfeh\x00i\x00",
        b"\xed\xa0\x80",
        b"a\xc0\x80b",
        b"\xf4\x90\x80\x80",
        b"[a.b \x80]",
        b"text\n\xbf\n[a.b c]\n",
    ]);
    io(std::fs::write(dir.join("latin.[]"), latin))?;
    io(std::fs::create_dir(dir.join("dir.[]")))?;
    let fault = loop {
        let t = lsp_text(c);
        if matches!(front(&t), Ok((_, _, e)) if !e.is_empty()) {
            break t;
        }
    };
    io(std::fs::write(dir.join("fault.[]"), &fault))?;
    for round in 0..8 {
        let before = snapshot(&dir)?;
        let mut env: Vec<(&str, OsString)> = vec![];
        let mut line: Vec<OsString> = vec![];
        let mut want;
        let mut may_write = false;
        let mut expected: Option<String> = None;
        let mut at = dir.clone();
        let mut faulty = false;
        match c.r.below(14) {
            0..=6 => {
                // compile, its options in any order and any form
                let file = *c.r.pick(&["good.[]", "good.[]", "plain.[]", "empty.[]", "good.md", "latin.[]", "dir.[]", "missing.[]", "fault.[]", "fault.[]", "fault.[]", "fault.[]", "", ".[]", "good.[]/", "./good.[]"]);
                let plugs = *c.r.pick(&["plugs", "plugs", "plugs", "plugs/", "none", "broken", "nowhere", "good.md"]);
                let level = *c.r.pick(&["", "1", "2", "3", "4", "4", "4", "5", "5", "5", "0", "6", "255", "256", "-1", "x", "1.5", "3 "]);
                let json = c.r.chance(40);
                let level_ok = ["", "1", "2", "3", "4", "5"].contains(&level);
                let full = ["", "5"].contains(&level);
                want = level_ok && plugs.starts_with("plugs") || level_ok && plugs == "none";
                want &= match file {
                    "good.[]" | "./good.[]" => plugs.starts_with("plugs") || !full,
                    "plain.[]" | "empty.[]" => true,
                    "fault.[]" => {
                        faulty = true;
                        ["1", "2", "3"].contains(&level)
                    }
                    _ => false,
                };
                want &= !(json && full);
                faulty &= want == false && level_ok && !(json && full) && ["plugs", "plugs/", "none"].contains(&plugs);
                let mut options: Vec<Vec<String>> = vec![];
                let form = |c: &mut Case, short: &str, long: &str, v: &str| -> Vec<String> {
                    match c.r.below(if short.is_empty() { 2 } else { 4 }) {
                        0 if !v.starts_with('-') => vec![long.to_string(), v.to_string()],
                        2 if !v.starts_with('-') => vec![short.to_string(), v.to_string()],
                        3 if !v.is_empty() => vec![format!("{}{}", short, v)],
                        _ => vec![format!("{}={}", long, v)],
                    }
                };
                options.push(form(c, "-b", "--backend", "html"));
                options.push(form(c, "-f", "--filename", file));
                if c.r.chance(80) {
                    options.push(form(c, "-p", "--plugins-dir-path", plugs));
                } else {
                    env.push(("BRACK_PLUGINS_PATH", plugs.into()));
                }
                if !level.is_empty() {
                    options.push(form(c, "", "--output-level", level));
                }
                if json {
                    options.push(vec!["--json".into()]);
                }
                if c.r.chance(15) {
                    // not a command line at all
                    want = false;
                    faulty = false;
                    match c.r.below(6) {
                        0 => {
                            options.remove(0);
                        }
                        1 => {
                            options.remove(1);
                        }
                        2 => options.push(vec!["extra".into()]),
                        3 => options.push(vec!["--nonsense".into()]),
                        4 => options.push(vec!["--json=1".into()]),
                        _ => options.push(vec!["--backend".into(), "tex".into()]),
                    }
                }
                c.r.shuffle(&mut options);
                line.push("compile".into());
                line.extend(options.into_iter().flatten().map(OsString::from));
            }
            7 => {
                line.push("version".into());
                let v = c.r.pick(&["1.2.3", "", "é\n", "0.2.0-rc.1"]).to_string();
                if c.r.chance(50) {
                    env.push(("APP_VERSION", v.clone().into()));
                    expected = Some(format!("Brack {}\n", v));
                }
                want = true;
            }
            8 => {
                let l: &[&str] = c.r.pick(&[
                    &[][..],
                    &["bogus"],
                    &[""],
                    &["compile"],
                    &["new"],
                    &["new", "x"],
                    &["new", "--name"],
                    &["add"],
                    &["add", "a", "b"],
                    &["build", "x"],
                    &["build", "--release"],
                    &["version", "--json"],
                    &["language-server", "x"],
                    &["--", "build"],
                    &["-x"],
                    &["Build"],
                    &["languageserver"],
                    &["--json", "compile", "-b", "html", "-f", "plain.[]", "-p", "none"],
                ]);
                line.extend(l.iter().map(OsString::from));
                want = false;
                if l == ["--", "build"] {
                    // another way of writing build, which has nothing to build here
                }
            }
            9 => {
                // what is no text
                let bad = OsString::from_vec(vec![b'a', 0xff, b'.', b'[', b']']);
                line = match c.r.below(5) {
                    0 => vec!["compile".into(), "-b".into(), "html".into(), "-p".into(), "none".into(), "-f".into(), bad],
                    1 => vec!["compile".into(), "-b".into(), "html".into(), "-p".into(), bad, "-f".into(), "plain.[]".into()],
                    2 => vec!["new".into(), "-n".into(), bad],
                    3 => vec!["add".into(), bad],
                    _ => vec![bad],
                };
                want = false;
            }
            10 => {
                let l: &[&str] = c.r.pick(&[&["help"][..], &["--help"], &["-h"], &["compile", "--help"], &["help", "compile"], &["new", "-h"], &["build", "--help"], &["help", "language-server"]]);
                line.extend(l.iter().map(OsString::from));
                want = true;
            }
            11 => {
                line.push("language-server".into());
                expected = Some(String::new());
                want = true;
            }
            12 => {
                // build where nothing can be built
                at = dir.join(format!("p{}", round));
                io(std::fs::create_dir(&at))?;
                let toml = "[document]\nname = \"x\"\nversion = \"1\"\nbackend = \"html\"\nauthors = []\n";
                line.push("build".into());
                want = false;
                may_write = true;
                match c.r.below(10) {
                    0 => (),
                    8 | 9 => {
                        io(std::fs::write(at.join("Brack.toml"), toml))?;
                        io(std::fs::create_dir(at.join("docs")))?;
                        let name = c.r.pick(&[&b"a\xff.[]"[..], b"\xc3.[]", b"caf\xe9 x.[]", b"\xed\xa0\x80.[]"]).to_vec();
                        if c.r.chance(60) {
                            // a document whose name is no text
                            io(std::fs::write(at.join("docs").join(OsString::from_vec(name)), "x"))?;
                        } else {
                            io(std::fs::write(at.join("docs/main.[]"), latin))?;
                        }
                    }
                    1 => io(std::fs::write(at.join("Brack.toml"), "[document"))?,
                    2 => io(std::fs::write(at.join("Brack.toml"), b"[document]\nname = \"\xff\""))?,
                    3 => io(std::fs::create_dir(at.join("Brack.toml")))?,
                    4 => io(std::fs::write(at.join("Brack.toml"), toml))?,
                    5 => {
                        io(std::fs::write(at.join("Brack.toml"), toml))?;
                        io(std::fs::write(at.join("docs"), "x"))?;
                    }
                    6 => {
                        io(std::fs::write(at.join("Brack.toml"), toml))?;
                        io(std::fs::create_dir(at.join("docs")))?;
                        io(std::fs::write(at.join("out"), "x"))?;
                    }
                    _ => {
                        io(std::fs::write(at.join("Brack.toml"), toml))?;
                        io(std::fs::create_dir(at.join("docs")))?;
                        io(std::fs::write(at.join("docs/main.[]"), &fault))?;
                        faulty = true;
                    }
                }
            }
            _ => {
                line.push("add".into());
                line.push(c.r.pick(&["github:o/r@v", "", "github", "x:y/z@1", "github:o/r", "@@@", ":", "/"]).into());
                if c.r.chance(50) {
                    io(std::fs::write(dir.join("Brack.toml"), "[document]\nname = \"x\"\nversion = \"1\"\nbackend = \"html\"\nauthors = []\n"))?;
                }
                // downloads are refused
                want = false;
                may_write = true;
            }
        }
        let before = if may_write { snapshot(&dir)? } else { before };
        let shown = format!("{:?} with {:?}", line, env);
        c.input(&shown);
        c.nontrivial(true, fnv(format!("{} {}", shown, fault).as_bytes()));
        let run = brack_with(c, &at, &line, &env)?;
        judge(&run, want, &format!("brack {}", shown))?;
        c.count(if want { "command lines that succeed" } else { "command lines that are refused" }, 1);
        if let Some(e) = expected {
            ensure!(run.text()? == e, "{} prints {:?}", shown, shorten(&run.text()?, 200));
        }
        if faulty {
            diagnosed(&fault, &run.err)?;
            c.count("lists of diagnostics compared", 1);
        }
        let after = snapshot(&dir)?;
        let left: Vec<String> = changes(&before, &after)
            .into_iter()
            // a failed build may have made the directories it writes to
            .filter(|x| !(may_write && x.ends_with("is new") && (x.contains("/out\"") || x.contains("plugins\""))))
            .collect();
        ensure!(left.is_empty(), "{} leaves {:?}", shown, left);
        let _ = std::fs::remove_file(dir.join("Brack.toml"));
        let _ = std::fs::remove_dir_all(dir.join("plugins"));
        if at != dir {
            let _ = std::fs::remove_dir_all(Path::new(&at));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}
