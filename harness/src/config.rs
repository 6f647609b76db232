//! C26: project configuration.
use crate::case::Case;
use crate::doc;
use crate::ensure;
use crate::front::Check;
use crate::rng::{fnv, Rng};
use crate::text::shorten;
use brack_project_manager::config::Config;
use brack_project_manager::plugin::PluginSchema;
use brack_project_manager::project::Project;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
struct Plugin {
    owner: String,
    repo: String,
    version: String,
    hooks: [Option<bool>; 4],
}

const HOOKS: [&str; 4] = ["expr_hook", "stmt_hook", "document_hook", "text_hook"];

#[derive(Clone, Debug, PartialEq)]
struct Model {
    name: String,
    version: String,
    backend: String,
    authors: Vec<String>,
    plugins: Option<BTreeMap<String, Plugin>>,
}

fn string(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => r
            .pick(&["\"", "'", "\\", "'''", "\"\"\"", "\\u0041", "a\nb", "a\r\nb", "\t", "\u{0}", "\u{7f}", "\u{1}", "#x", "[a]", "a = 1", "${x}", " ", "true", "1979-05-27", "a.b", "-", "\u{feff}", "\u{2028}", "\u{85}", "\u{10ffff}"])
            .to_string(),
        2 => {
            let n = r.range(1, 6);
            (0..n).map(|_| char::from(r.range(0, 127) as u8)).collect()
        }
        3 => format!("{}\"{}", doc::name(r, true), doc::name(r, true)),
        4 => "x".repeat(r.range(1, 300)),
        _ => doc::name(r, true),
    }
}

/// A TOML string of this value, in one of the ways TOML has.
fn quoted(r: &mut Rng, s: &str, one_line: bool) -> String {
    let literal_ok = |s: &str| !s.chars().any(|c| c == '\'' || (c.is_control() && c != '\t'));
    match r.below(4) {
        0 if literal_ok(s) => format!("'{}'", s),
        1 if !one_line && !s.contains("'''") && !s.ends_with('\'') && !s.chars().any(|c| c.is_control() && c != '\t' && c != '\n') => {
            format!("'''\n{}'''", s)
        }
        k => {
            let mut out = String::from(if k == 2 && !one_line { "\"\"\"\n" } else { "\"" });
            for ch in s.chars() {
                match ch {
                    '"' => out.push_str("\\\""),
                    '\\' => out.push_str("\\\\"),
                    '\n' if k == 2 && !one_line => out.push('\n'),
                    '\n' => out.push_str("\\n"),
                    c if c.is_control() => out.push_str(&format!("\\u{:04x}", c as u32)),
                    c if r.chance(5) => out.push_str(&format!("\\U{:08X}", c as u32)),
                    c => out.push(c),
                }
            }
            out.push_str(if k == 2 && !one_line { "\"\"\"" } else { "\"" });
            out
        }
    }
}

fn key(r: &mut Rng, s: &str) -> String {
    let bare = !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'-');
    if bare && r.chance(70) {
        s.to_string()
    } else {
        quoted(r, s, true)
    }
}

fn model(r: &mut Rng) -> Model {
    let plugins = if r.chance(15) {
        None
    } else {
        let mut map = BTreeMap::new();
        for _ in 0..*r.pick(&[0usize, 1, 1, 2, 3, 6]) {
            map.insert(string(r), plugin(r));
        }
        Some(map)
    };
    Model {
        name: string(r),
        version: string(r),
        backend: string(r),
        authors: {
            let mut all: Vec<String> = (0..r.below(4)).map(|_| string(r)).collect();
            if !all.is_empty() && r.chance(20) {
                // the same again
                let again = r.pick(&all).clone();
                all.push(again);
            }
            all
        },
        plugins,
    }
}

fn plugin(r: &mut Rng) -> Plugin {
    let mut hooks = [None; 4];
    for h in &mut hooks {
        *h = *r.pick(&[None, Some(true), Some(false)]);
    }
    Plugin { owner: string(r), repo: string(r), version: string(r), hooks }
}

fn fields(r: &mut Rng, p: &Plugin, one_line: bool) -> Vec<String> {
    let mut f = vec![
        format!("schema = {}", quoted(r, "github", true)),
        format!("owner = {}", quoted(r, &p.owner, one_line)),
        format!("repo = {}", quoted(r, &p.repo, one_line)),
        format!("version = {}", quoted(r, &p.version, one_line)),
    ];
    for (name, v) in HOOKS.iter().zip(&p.hooks) {
        if let Some(v) = v {
            f.push(format!("{} = {}", name, v));
        }
    }
    r.shuffle(&mut f);
    f
}

fn write(r: &mut Rng, m: &Model) -> String {
    let mut s = String::new();
    let comment = |r: &mut Rng, s: &mut String| {
        if r.chance(15) {
            s.push_str(" # comment = \"x\"");
        }
        s.push('\n');
    };
    let mut document = vec![
        format!("name = {}", quoted(r, &m.name, false)),
        format!("version = {}", quoted(r, &m.version, false)),
        format!("backend = {}", quoted(r, &m.backend, false)),
        format!("authors = [{}]", m.authors.iter().map(|a| quoted(r, a, true)).collect::<Vec<_>>().join(r.pick(&[",", ", ", ",\n  "]))),
    ];
    r.shuffle(&mut document);
    let mut doc_part = String::from("[document]");
    comment(r, &mut doc_part);
    for l in document {
        doc_part.push_str(&l);
        comment(r, &mut doc_part);
    }
    let mut plug_part = String::new();
    if let Some(map) = &m.plugins {
        if r.chance(25) {
            plug_part.push_str("[plugins]\n");
            for (name, p) in map {
                let f = fields(r, p, true).join(", ");
                plug_part.push_str(&format!("{} = {{ {} }}\n", key(r, name), f));
            }
        } else {
            if map.is_empty() || r.chance(50) {
                plug_part.push_str("[plugins]\n");
            }
            for (name, p) in map {
                plug_part.push_str(&format!("[plugins.{}]", key(r, name)));
                comment(r, &mut plug_part);
                for l in fields(r, p, false) {
                    plug_part.push_str(&l);
                    comment(r, &mut plug_part);
                }
            }
        }
    }
    if r.chance(20) {
        s.push_str(&plug_part);
        s.push_str(&doc_part);
    } else {
        s.push_str(&doc_part);
        s.push_str(&plug_part);
    }
    if r.chance(10) {
        s = s.replace('\n', "\r\n");
    }
    s
}

/// What a loaded configuration says.
fn view(c: &Config) -> Model {
    Model {
        name: c.document.name.clone(),
        version: c.document.version.clone(),
        backend: c.document.backend.clone(),
        authors: c.document.authors.clone(),
        plugins: c.plugins.as_ref().map(|m| {
            m.iter()
                .map(|(k, v)| {
                    let PluginSchema::GitHub { owner, repo, version, expr_hook, stmt_hook, document_hook, text_hook } = v;
                    let p = Plugin {
                        owner: owner.clone(),
                        repo: repo.clone(),
                        version: version.clone(),
                        hooks: [*expr_hook, *stmt_hook, *document_hook, *text_hook],
                    };
                    (k.clone(), p)
                })
                .collect()
        }),
    }
}

fn load(c: &Case, text: &str) -> Result<Config, String> {
    let dir = c.dir.join(format!("cfg{}", c.shard));
    std::fs::create_dir_all(&dir).map_err(|e| format!("!{}", e))?;
    std::fs::write(dir.join("Brack.toml"), text).map_err(|e| format!("!{}", e))?;
    let mut p = Project::new(&dir);
    p.load_brack_toml().map_err(|e| format!("{:#}", e))?;
    Ok(p.config)
}

pub fn c26(c: &mut Case) -> Check {
    let m = model(&mut c.r);
    let crlf_safe = |m: &Model| !format!("{:?}", m).contains("\\n");
    let mut text = write(&mut c.r, &m);
    if text.contains("\r\n") && !crlf_safe(&m) {
        // a line break inside a multi-line string is read as it is written
        text = text.replace("\r\n", "\n");
        if text.contains('\r') {
            return Ok(());
        }
    }
    c.input(&text);
    let distinct = m.plugins.as_ref().map(|p| !p.is_empty()).unwrap_or(false);
    c.nontrivial(distinct, fnv(text.as_bytes()));
    // it is TOML, and says this: judged by the TOML reader alone
    let config = load(c, &text).map_err(|e| format!("a valid configuration is rejected: {}", e))?;
    let got = view(&config);
    ensure!(got == m, "loaded {} instead of {}", shorten(&format!("{:?}", got), 600), shorten(&format!("{:?}", m), 600));
    c.count("configurations loaded", 1);
    // absent flags mean off: the flags a build would use
    let written = toml::to_string(&config).map_err(|e| format!("a loaded configuration cannot be written: {}", e))?;
    let again = load(c, &written).map_err(|e| format!("a written configuration is rejected: {}: {}", e, shorten(&written, 400)))?;
    ensure!(view(&again) == m, "writing and reading again gives {} instead of {}", shorten(&format!("{:?}", view(&again)), 600), shorten(&format!("{:?}", m), 600));
    c.count("configurations written and read again", 1);
    flags(c, &m)?;
    rejections(c)?;
    identities(c)
}

/// The hook flags as the project hands them to the plugin loader.
fn flags(c: &mut Case, m: &Model) -> Check {
    let usable = |s: &str| !s.is_empty() && !s.contains(['/', '\0']) && s.len() < 100;
    let mut m = m.clone();
    m.plugins = m.plugins.map(|p| p.into_iter().filter(|(k, _)| usable(k)).collect());
    let mut r = c.r.clone();
    let text = write(&mut r, &m).replace("\r\n", "\n");
    let dir = c.dir.join(format!("cfg{}", c.shard));
    std::fs::create_dir_all(dir.join("plugins")).map_err(|e| format!("!{}", e))?;
    std::fs::write(dir.join("Brack.toml"), text).map_err(|e| format!("!{}", e))?;
    let mut p = Project::new(&dir);
    if p.load_brack_toml().is_err() || view(&p.config) != m {
        return Ok(());
    }
    // everything has been fetched already
    let mut files = vec![];
    if let Some(plugins) = &p.config.plugins {
        for (name, schema) in plugins {
            let f = dir.join("plugins").join(format!("{}_{}.wasm", name, schema.hash_sha256(&m.backend)));
            std::fs::write(&f, "x").map_err(|e| format!("!{}", e))?;
            files.push(f);
        }
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| format!("!{}", e))?;
    let done = rt.block_on(p.download_plugins_using_config());
    for f in files {
        let _ = std::fs::remove_file(f);
    }
    done.map_err(|e| format!("fetched plugins are not used: {:#}", e))?;
    let want = m.plugins.unwrap_or_default();
    ensure!(want.len() == p.plugins_metadata.len(), "{} plugins are used, {} configured", p.plugins_metadata.len(), want.len());
    for (name, w) in &want {
        let (_, f) = p.plugins_metadata.get(name).ok_or(format!("the plugin {:?} is not used", name))?;
        let got = [f.expr_hook, f.stmt_hook, f.document_hook, f.text_hook];
        let on: Vec<bool> = w.hooks.iter().map(|h| h.unwrap_or(false)).collect();
        ensure!(got.to_vec() == on, "the hooks {:?} of {:?} are used as {:?} (expr, stmt, document, text)", w.hooks, name, got);
        c.count("plugins whose hook flags were compared", 1);
    }
    Ok(())
}

fn rejections(c: &mut Case) -> Check {
    let r = &mut c.r;
    let p = plugin(r);
    let mut f = fields(r, &p, true);
    let head = "[document]\nname = \"a\"\nversion = \"b\"\nbackend = \"c\"\nauthors = []\n";
    let (what, body) = match r.below(7) {
        0 => {
            let n = r.pick(&["x", "hook", "expr-hook", "Owner", "owner ", "url", "path", "Schema", "exprhook", "expr_hooks", "", "schema.x"]).to_string();
            let at = r.below(f.len() + 1);
            f.insert(at, format!("{:?} = {}", n, r.pick(&["\"x\"", "true", "1"])));
            ("an unknown field", f.join("\n"))
        }
        1 => {
            let i = r.below(f.len());
            let dup = f[i].clone();
            f.push(dup);
            ("a duplicate field", f.join("\n"))
        }
        2 | 3 => {
            let required: Vec<usize> = (0..f.len()).filter(|i| !f[*i].contains("_hook = ")).collect();
            let i = *r.pick(&required);
            f.remove(i);
            ("a missing field", f.join("\n"))
        }
        4 => {
            let i = r.below(f.len());
            let name = f[i].split(" = ").next().unwrap_or_default().to_string();
            let bad = if name.ends_with("_hook") { *r.pick(&["\"true\"", "1", "[]", "{}", "0.5", "1979-05-27"]) } else { *r.pick(&["1", "true", "[]", "[\"a\"]", "{}", "0.5", "{ a = \"x\" }"]) };
            f[i] = format!("{} = {}", name, bad);
            ("an ill-typed field", f.join("\n"))
        }
        5 => {
            let i = f.iter().position(|l| l.starts_with("schema")).unwrap_or(0);
            f[i] = format!("schema = {:?}", r.pick(&["gitlab", "GitHub", "GITHUB", "", "github ", " github", "git", "githubx", "http"]));
            ("an unsupported schema", f.join("\n"))
        }
        _ => ("a plugin that is no table", String::new()),
    };
    let inline = r.chance(30) && what != "a duplicate field";
    let text = if body.is_empty() && what == "a plugin that is no table" {
        format!("{}[plugins]\na = {}\n", head, r.pick(&["1", "\"github\"", "true", "[]", "[[]]"]))
    } else if inline {
        format!("{}[plugins]\na = {{ {} }}\n", head, body.replace('\n', ", "))
    } else {
        format!("{}[plugins.a]\n{}\n", head, body)
    };
    c.input(&text);
    if let Ok(got) = load(c, &text) {
        return Err(format!("a configuration with {} is accepted: {:?}", what, got));
    }
    c.nontrivial(true, fnv(text.as_bytes()));
    c.count(&format!("{} rejected", what), 1);
    Ok(())
}

fn schema(p: &Plugin) -> PluginSchema {
    PluginSchema::GitHub {
        owner: p.owner.clone(),
        repo: p.repo.clone(),
        version: p.version.clone(),
        expr_hook: p.hooks[0],
        stmt_hook: p.hooks[1],
        document_hook: p.hooks[2],
        text_hook: p.hooks[3],
    }
}

/// Equal identities mean equal configurations (and equal ones have equal identities, or nothing would ever be reused).
fn identities(c: &mut Case) -> Check {
    let p = plugin(&mut c.r);
    let backend = string(&mut c.r);
    let base = schema(&p).hash_sha256(&backend);
    ensure!(base == schema(&p.clone()).hash_sha256(&backend), "the same configuration has two identities");
    ensure!(!base.is_empty() && base.chars().all(|ch| ch.is_ascii_alphanumeric()), "the identity {:?} is no part of a plugin file name", base);
    for _ in 0..12 {
        let mut q = p.clone();
        let mut b = backend.clone();
        let r = &mut c.r;
        match r.below(9) {
            0 => q.owner = string(r),
            1 => q.repo = string(r),
            2 => q.version = string(r),
            3 => b = string(r),
            // parts moved over the border of two fields
            4 => {
                let all = format!("{}{}{}{}", p.owner, p.repo, p.version, backend);
                let mut cuts: Vec<usize> = (0..3).map(|_| r.below(all.chars().count() + 1)).collect();
                cuts.sort();
                let chars: Vec<char> = all.chars().collect();
                q.owner = chars[..cuts[0]].iter().collect();
                q.repo = chars[cuts[0]..cuts[1]].iter().collect();
                q.version = chars[cuts[1]..cuts[2]].iter().collect();
                b = chars[cuts[2]..].iter().collect();
            }
            5 => std::mem::swap(&mut q.owner, &mut q.repo),
            6 => {
                q.owner = format!("{}\", repo: \"{}", p.owner, p.repo);
                q.repo = string(r);
            }
            7 => {
                q.version.push(*r.pick(&[' ', '\0', '\n', 'A', '"', '\\']));
            }
            _ => {
                let i = r.below(4);
                q.hooks[i] = *r.pick(&[None, Some(true), Some(false)]);
            }
        }
        if q == p && b == backend {
            continue;
        }
        let other = schema(&q).hash_sha256(&b);
        ensure!(other != base, "{:?} with {:?} and {:?} with {:?} share the identity {}", p, backend, q, b, base);
        c.count("identities compared", 1);
    }
    Ok(())
}
