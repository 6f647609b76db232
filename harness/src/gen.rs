//! Monitors for macros (C09), generation (C10), argument binding (C11), resolution (C12), failing calls (C13).
use crate::case::Case;
use crate::doc::{self, Cmd, Doc, Head, Item, Kind, Shape};
use crate::ensure;
use crate::front::{front, Check};
use crate::plug::{answer, load, metadata, patch, probe, Entry};
use crate::rng::{fnv, Rng};
use crate::text::shorten;
use brack_plugin::feature_flag::FeatureFlag;
use brack_plugin::plugins::Plugins;
use brack_plugin::types::Type;
use brack_transformer::ast::{AST, InnerNode, LeafNode};
use serde_json::{json, Value as Json};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Module {
    pub name: String,
    pub entries: Vec<Entry>,
    pub flag: FeatureFlag,
}

/// Plugins as they are loaded, and the model of them.
pub struct World {
    pub modules: Vec<Module>,
    pub plugins: Plugins,
    pub counters: HashMap<String, usize>,
    /// What the macros u0 to u7 answer.
    pub trees: Vec<AST>,
}

#[derive(Debug)]
pub enum Fail {
    Expected(String),
    Harness(String),
}

fn hook(m: &Module, which: &str) -> bool {
    match which {
        "document" => m.flag.document_hook,
        "stmt" => m.flag.stmt_hook,
        "expr" => m.flag.expr_hook,
        _ => m.flag.text_hook,
    }
}

/// The number of arguments a signature asks for at least, and takes at most.
pub fn arity(args: &[Type]) -> (usize, usize) {
    let mut min = 0;
    let mut max = Some(0);
    for t in args {
        match t {
            Type::TOption(_) => max = max.map(|x: usize| x + 1),
            Type::TArray(_) => max = None,
            _ => {
                min += 1;
                max = max.map(|x| x + 1);
            }
        }
    }
    (min, max.unwrap_or(usize::MAX))
}

/// What a command receives. None: the call is to be rejected.
pub fn bind(sig: &[Type], args: &[String]) -> Option<String> {
    let (min, max) = arity(sig);
    if args.len() < min || args.len() > max {
        return None;
    }
    let mut out: Vec<Json> = vec![];
    for (i, t) in sig.iter().enumerate() {
        out.push(match t {
            Type::TOption(_) => json!({ "TextOption": args.get(i) }),
            Type::TArray(_) => json!({ "TextArray": if i < args.len() { &args[i..] } else { &[] } }),
            _ => json!({ "Text": args.get(i)? }),
        });
    }
    Some(Json::Array(out).to_string())
}

impl World {
    pub fn load(c: &Case, modules: Vec<Module>, tag: &str) -> Result<World, String> {
        World::load_with(c, modules, tag, vec![])
    }

    pub fn load_with(c: &Case, modules: Vec<Module>, tag: &str, trees: Vec<AST>) -> Result<World, String> {
        let lines: Result<Vec<String>, _> = trees.iter().map(serde_json::to_string).collect();
        let lines = lines.map_err(|e| format!("!{}", e))?.join("\n") + "\n";
        let mut plugins = vec![];
        for (i, m) in modules.iter().enumerate() {
            let path = c.dir.join(format!("p{}.{}.{}.wasm", c.shard, tag, i));
            let mut bin = probe(&c.wasm, &metadata(&m.entries))?;
            if !trees.is_empty() {
                bin = patch(bin, "TREE", lines.as_bytes())?;
            }
            std::fs::write(&path, bin).map_err(|e| format!("!{}", e))?;
            let loaded = load(&path, &m.name, m.flag.clone());
            let _ = std::fs::remove_file(&path);
            plugins.push(loaded.map_err(|e| format!("a sound plugin does not load: {} ({:?})", e, m))?);
        }
        let plugins = Plugins::new(plugins).map_err(|e| format!("sound plugins are rejected: {:#}", e))?;
        Ok(World { modules, plugins, counters: HashMap::new(), trees })
    }

    /// The same declarations, answered differently.
    pub fn twin(m: &Module) -> Module {
        let mut t = m.clone();
        for e in &mut t.entries {
            if e.ret != Type::TAST {
                e.call = "s7".into();
            }
        }
        t
    }

    fn entry(&self, module: &str, name: &str, ret: &Type) -> Option<Entry> {
        let m = self.modules.iter().find(|m| m.name == module)?;
        m.entries.iter().find(|e| e.command == name && e.ret == *ret).cloned()
    }

    pub fn call(&mut self, module: &str, e: &Entry, input: &str) -> Result<String, Fail> {
        let n = self.counters.entry(module.to_string()).or_insert(0);
        answer(&e.call, n, input).map_err(|m| if m.starts_with('!') { Fail::Harness(m) } else { Fail::Expected(m) })
    }

    fn hooked(&mut self, which: &str, text: String) -> Result<String, Fail> {
        let owner = match self.modules.iter().find(|m| hook(m, which)) {
            Some(m) => m.name.clone(),
            None => return Ok(text),
        };
        let ret = if which == "document" || which == "stmt" { Type::TBlock } else { Type::TInline };
        let e = self.entry(&owner, which, &ret).ok_or(Fail::Harness("hook entry".into()))?;
        let input = json!([{ "Text": text }]).to_string();
        self.call(&owner, &e, &input)
    }

    /// The meaning of a tree: the specification generation is judged by.
    pub fn eval(&mut self, n: &AST) -> Result<String, Fail> {
        let parts = |w: &mut World, node: &InnerNode, from: usize| -> Result<Vec<String>, Fail> {
            node.children[from..].iter().map(|x| w.eval(x)).collect()
        };
        match n {
            AST::Document(x) => {
                let s = parts(self, x, 0)?.concat();
                self.hooked("document", s)
            }
            AST::Stmt(x) => {
                let s = parts(self, x, 0)?.concat();
                self.hooked("stmt", s)
            }
            AST::Expr(x) => {
                let s = parts(self, x, 0)?.concat();
                self.hooked("expr", s)
            }
            AST::Text(x) => {
                let s = x.value.clone().ok_or(Fail::Expected("a text without a value".into()))?;
                self.hooked("text", s)
            }
            AST::Square(x) | AST::Curly(x) => {
                let ret = if matches!(n, AST::Square(_)) { Type::TInline } else { Type::TBlock };
                let (module, ident) = match (x.children.first(), x.children.get(1)) {
                    (Some(AST::Module(m)), Some(AST::Ident(i))) => {
                        (m.value.clone().unwrap_or_default(), i.value.clone().unwrap_or_default())
                    }
                    _ => return Err(Fail::Expected("no plain head".into())),
                };
                let args = parts(self, x, 2)?;
                let e = self
                    .entry(&module, &ident, &ret)
                    .ok_or_else(|| Fail::Expected(format!("no {:?} {}.{}", ret, module, ident)))?;
                let input = bind(&e.args, &args)
                    .ok_or_else(|| Fail::Expected(format!("{} arguments for {:?}", args.len(), e.args)))?;
                self.call(&module, &e, &input)
            }
            AST::Angle(_) => Err(Fail::Expected("unexpanded macro".into())),
            _ => Err(Fail::Expected("not generated".into())),
        }
    }

    /// The model of macro expansion.
    pub fn expand(&mut self, overall: &AST, n: &AST, calls: &mut usize) -> Result<AST, Fail> {
        let mut out = n.clone();
        if let AST::Document(x) | AST::Stmt(x) | AST::Expr(x) | AST::Square(x) | AST::Curly(x) = &mut out {
            for child in &mut x.children {
                *child = match &*child {
                    AST::Angle(a) => {
                        let (module, ident) = match (a.children.first(), a.children.get(1)) {
                            (Some(AST::Module(m)), Some(AST::Ident(i))) => {
                                (m.value.clone().unwrap_or_default(), i.value.clone().unwrap_or_default())
                            }
                            _ => return Err(Fail::Harness("macro with a macro head".into())),
                        };
                        let e = self
                            .entry(&module, &ident, &Type::TAST)
                            .ok_or_else(|| Fail::Expected(format!("no macro {}.{}", module, ident)))?;
                        let input = serde_json::to_string(&(overall, &a.id)).map_err(|e| Fail::Harness(e.to_string()))?;
                        *calls += 1;
                        if let Some(k) = e.call.strip_prefix('u').and_then(|k| k.parse::<usize>().ok()) {
                            self.trees.get(k).cloned().ok_or(Fail::Expected("no tree".into()))?
                        } else {
                            let n = self.counters.entry(module).or_insert(0);
                            macro_answer(&e.call, n, &input)?
                        }
                    }
                    other => self.expand(overall, other, calls)?,
                };
            }
        }
        Ok(out)
    }
}

fn loc() -> brack_tokenizer::tokens::Location {
    brack_tokenizer::tokens::mock_location()
}

fn macro_answer(call: &str, counter: &mut usize, input: &str) -> Result<AST, Fail> {
    let h = fnv(input.as_bytes());
    let record = |k: usize, n: usize| format!("{{{}#{}:{:016x}}}", k, n, h);
    let before = *counter;
    let plain = fnv(&input.bytes().filter(|b| !matches!(b, b'0'..=b'9' | b'a'..=b'f' | b'-')).collect::<Vec<u8>>());
    if !matches!(call, "m5" | "m6" | "m7" | "m8") {
        *counter += 1;
    }
    let text = |id: String, value: String| AST::Text(LeafNode { id, value: Some(value), location: loc() });
    let inner = |id: &str, children: Vec<AST>| InnerNode { id: id.into(), children, location: loc() };
    let module = |id: &str, v: &str| AST::Module(LeafNode { id: id.into(), value: Some(v.into()), location: loc() });
    let ident = |id: &str, v: &str| AST::Ident(LeafNode { id: id.into(), value: Some(v.into()), location: loc() });
    Ok(match call {
        "m0" => text(format!("m{}", *counter), record(100, before)),
        "m1" => AST::Expr(inner(
            &format!("e{}", *counter),
            vec![text(format!("m{}", *counter), record(101, before)), text("t".into(), "~".into())],
        )),
        "m2" => text("z".into(), String::new()),
        "m3" => AST::Angle(inner("a", vec![module("b", "p"), ident("c", "m0")])),
        "m4" => AST::Square(inner(
            "s",
            vec![
                module("b", "p"),
                ident("c", "e"),
                AST::Expr(inner("x", vec![text(format!("m{}", *counter), record(104, before))])),
            ],
        )),
        "m5" => text("p".into(), format!("{{105:{:016x}}}", plain)),
        "m6" => AST::Square(inner(
            "s",
            vec![
                module("b", "p"),
                ident("c", "e"),
                AST::Expr(inner("x", vec![text("p".into(), format!("{{106:{:016x}}}", plain))])),
            ],
        )),
        "m7" | "m8" => {
            let mut n = text("t".into(), "deep".into());
            for _ in 0..if call == "m7" { 20 } else { 60 } {
                n = AST::Square(inner("s", vec![module("b", "p"), ident("c", "e"), AST::Expr(inner("x", vec![n]))]));
            }
            n
        }
        // everything else fails, or does not return a tree
        other => return Err(Fail::Expected(format!("{} is not a macro that works", other))),
    })
}

fn signature(r: &mut Rng) -> Vec<Type> {
    let base = |r: &mut Rng| {
        r.pick(&[
            Type::TInline,
            Type::TInline,
            Type::TBlock,
            Type::TAST,
            Type::TInlineCmd("x".into()),
            Type::TBlockCmd("y".into()),
        ])
        .clone()
    };
    let mut out = vec![];
    for _ in 0..*r.pick(&[0usize, 1, 1, 2, 2, 3, 4, 5]) {
        let b = base(r);
        out.push(match r.below(10) {
            0..=4 => b,
            5..=7 => Type::TOption(Box::new(b)),
            _ => Type::TArray(Box::new(b)),
        });
    }
    // mostly the usual order, sometimes any
    if r.chance(60) {
        out.sort_by_key(|t| match t {
            Type::TOption(_) => 1,
            Type::TArray(_) => 2,
            _ => 0,
        });
    }
    out
}

/// Module names are file names in the plugin directory.
fn module_name(r: &mut Rng, taken: &[Module]) -> String {
    loop {
        let n = match r.below(50) {
            0..=20 => "p".to_string(),
            // file names have at most 255 bytes
            21 => (0..30).map(|_| *r.pick(&["long", "m", "-", "9"])).collect(),
            _ => doc::name(r, true),
        };
        if !taken.iter().any(|m| m.name == n) && !n.contains(['/', '\0']) {
            return n;
        }
    }
}

pub struct Wishes {
    pub hooks: bool,
    pub macros: bool,
    pub failing: bool,
    pub pure: bool,
}

pub fn world(c: &mut Case, w: &Wishes) -> Vec<Module> {
    let r = &mut c.r;
    let mut modules: Vec<Module> = vec![];
    let mut names: Vec<String> = (0..r.range(2, 4)).map(|_| doc::name(r, true)).collect();
    if r.chance(4) {
        names.push((0..r.range(10, 40)).map(|_| doc::name(r, false)).collect());
    }
    names.push("e".into());
    let mut next = 0;
    let mut next_pure = 0;
    let mut owners: HashMap<&str, bool> = HashMap::new();
    for _ in 0..r.range(1, 3) {
        let mut entries: Vec<Entry> = vec![];
        for kind in [Type::TInline, Type::TBlock] {
            for _ in 0..r.range(1, 2) {
                let command = r.pick(&names).clone();
                if entries.iter().any(|e| e.command == command && e.ret == kind) {
                    continue;
                }
                let call = if w.pure && r.chance(95) {
                    format!("s{}", r.below(8))
                } else if r.chance(20) && next_pure < 8 {
                    next_pure += 1;
                    format!("s{}", next_pure - 1)
                } else if w.pure || r.chance(5) {
                    r.pick(&["empty", "noout"]).to_string()
                } else {
                    next += 1;
                    format!("c{}", next - 1)
                };
                entries.push(Entry { command, call, args: signature(r), ret: kind.clone() });
            }
        }
        if w.macros {
            for _ in 0..r.range(1, 3) {
                let command = r.pick(&names).clone();
                if entries.iter().any(|e| e.command == command && e.ret == Type::TAST) {
                    continue;
                }
                let call = if w.pure {
                    r.pick(&["m5", "m5", "m5", "m5", "m5", "m6"]).to_string()
                } else {
                    r.pick(&["m0", "m0", "m1", "m2", "m3", "m4", "m5", "m6"]).to_string()
                };
                entries.push(Entry { command, call, args: signature(r), ret: Type::TAST });
            }
        }
        if w.failing {
            for (i, f) in ["f_trap", "f_err", "f_err0", "f_rc", "f_outerr", "f_utf8", "f_oob", "f_div", "f_stack", "gone"]
                .iter()
                .enumerate()
            {
                for ret in [Type::TInline, Type::TBlock] {
                    entries.push(Entry { command: format!("bad{}", i), call: f.to_string(), args: vec![Type::TArray(Box::new(Type::TInline))], ret });
                }
            }
            for (i, f) in ["f_trap", "f_err", "f_err0", "f_rc", "f_json", "f_shape", "f_utf8", "noout", "c0", "gone"].iter().enumerate() {
                entries.push(Entry { command: format!("bad{}", i), call: f.to_string(), args: vec![], ret: Type::TAST });
            }
        }
        let mut flag = FeatureFlag::default();
        if w.hooks {
            for which in ["document", "stmt", "expr", "text"] {
                let declared = r.chance(70);
                if !declared {
                    continue;
                }
                let ret = if which == "document" || which == "stmt" { Type::TBlock } else { Type::TInline };
                if next >= 20 {
                    continue;
                }
                let call = if w.pure {
                    format!("s{}", r.below(8))
                } else {
                    next += 1;
                    format!("c{}", next - 1)
                };
                entries.push(Entry {
                    command: which.to_string(),
                    call,
                    args: vec![("text", Type::TInline)].into_iter().map(|x| x.1).collect(),
                    ret,
                });
                if r.chance(60) && !owners.contains_key(which) {
                    owners.insert(which, true);
                    match which {
                        "document" => flag.document_hook = true,
                        "stmt" => flag.stmt_hook = true,
                        "expr" => flag.expr_hook = true,
                        _ => flag.text_hook = true,
                    }
                }
            }
        }
        let name = module_name(r, &modules);
        if w.macros && name == "p" && r.chance(60) && !entries.iter().any(|e| e.command == "m0" && e.ret == Type::TAST) {
            // what the answer of m3 asks for
            let call = if w.pure { "m5" } else { r.pick(&["m0", "m5"]) };
            entries.push(Entry { command: "m0".into(), call: call.to_string(), args: vec![], ret: Type::TAST });
        }
        r.shuffle(&mut entries);
        modules.push(Module { name, entries, flag });
    }
    modules
}

/// Makes the commands of a document calls the world accepts.
pub fn fit(r: &mut Rng, d: &mut Doc, modules: &[Module], macros: bool) {
    fn cmd(r: &mut Rng, c: &mut Cmd, modules: &[Module], macros: bool) {
        let mut candidates = vec![];
        for m in modules {
            for e in &m.entries {
                if e.call.starts_with("f_") || e.command.starts_with("bad") || e.call == "gone" {
                    continue;
                }
                let (min, _) = arity(&e.args);
                // a required parameter behind more than one array can never be served; those are C11's
                if bind(&e.args, &vec![String::new(); min.max(e.args.len())]).is_none() && e.ret != Type::TAST {
                    continue;
                }
                candidates.push((m.name.clone(), e.clone()));
            }
        }
        let of = |ret: Type| candidates.iter().filter(|x| x.1.ret == ret).cloned().collect::<Vec<_>>();
        let (inline, block, mac) = (of(Type::TInline), of(Type::TBlock), of(Type::TAST));
        if c.kind == Kind::Angle && (!macros || mac.is_empty()) {
            c.kind = Kind::Square;
        }
        if c.kind == Kind::Square && inline.is_empty() {
            c.kind = Kind::Curly;
        }
        if c.kind == Kind::Curly && block.is_empty() {
            c.kind = if inline.is_empty() { Kind::Angle } else { Kind::Square };
        }
        let pool = match c.kind {
            Kind::Square => &inline,
            Kind::Curly => &block,
            Kind::Angle => &mac,
        };
        if !pool.is_empty() {
            let (module, e) = r.pick(pool).clone();
            // macro heads only where expansion replaces them
            let keep = macros && c.kind != Kind::Angle && !mac.is_empty();
            match &mut c.module {
                Head::Macro(m) if keep => cmd(r, m, modules, macros),
                other => *other = Head::Name(module),
            }
            match &mut c.ident {
                Head::Macro(m) if keep => cmd(r, m, modules, macros),
                other => *other = Head::Name(e.command.clone()),
            }
            if c.kind != Kind::Angle {
                let (min, max) = arity(&e.args);
                let mut n = c.args.len().clamp(min, max.min(min.max(6)));
                while n < max && bind(&e.args, &vec![String::new(); n]).is_none() {
                    n += 1;
                }
                while c.args.len() < n {
                    let t = doc::name(r, true);
                    c.args.push(vec![Item::Text(vec![t])]);
                }
                c.args.truncate(n);
            }
        }
        for arg in &mut c.args {
            for item in arg {
                if let Item::Cmd(x) = item {
                    cmd(r, x, modules, macros);
                }
            }
        }
    }
    for stmt in &mut d.stmts {
        for line in stmt {
            for item in line {
                if let Item::Cmd(x) = item {
                    cmd(r, x, modules, macros);
                }
            }
        }
    }
}

pub fn fitted(c: &mut Case, modules: &[Module], macros: bool) -> (Doc, String, usize) {
    loop {
        let mut shape = Shape::random(&mut c.r);
        shape.macros = if macros { c.r.range(10, 60) } else { 0 };
        shape.macro_heads = if macros && c.r.chance(30) { 20 } else { 0 };
        let mut d = doc::document(&mut c.r, &shape);
        fit(&mut c.r, &mut d, modules, macros);
        let layout = c.r.chance(50);
        if let Some(p) = doc::print(&mut c.r, &d, layout, None) {
            return (d, p.text, p.commands);
        }
    }
}

/// Other trees of the same meaning or near it: what macros may well return.
fn reshape(r: &mut Rng, n: &mut AST) {
    if let AST::Document(x) | AST::Stmt(x) | AST::Expr(x) | AST::Square(x) | AST::Curly(x) = n {
        for child in &mut x.children {
            reshape(r, child);
            match child {
                AST::Expr(e) if e.children.len() == 1 && r.chance(15) => *child = e.children[0].clone(),
                AST::Stmt(s) if s.children.len() == 1 && r.chance(10) => *child = s.children[0].clone(),
                AST::Text(_) | AST::Square(_) | AST::Curly(_) if r.chance(8) => {
                    *child = AST::Expr(InnerNode { id: "w".into(), children: vec![child.clone()], location: loc() })
                }
                _ => (),
            }
        }
    }
}

pub fn compare(got: &str, want: &str) -> Check {
    if got == want {
        return Ok(());
    }
    let at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    let lossy = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(30).min(s.len())..]).to_string();
    Err(format!(
        "generated {} bytes, {} expected; around byte {}: {:?} instead of {:?}",
        got.len(),
        want.len(),
        at,
        shorten(&lossy(got), 90),
        shorten(&lossy(want), 90)
    ))
}

pub fn c10(c: &mut Case) -> Check {
    if c.index % 5 == 4 {
        return crate::answers::any_answers(c, crate::answers::Judge::Text);
    }
    let hooks = c.r.chance(60);
    let modules = world(c, &Wishes { hooks, macros: false, failing: false, pure: false });
    let mut w = World::load(c, modules, "c10")?;
    c.count("plugin sets", 1);
    for _ in 0..25 {
        let (_, text, commands) = fitted(c, &w.modules.clone(), false);
        c.input(&text);
        let (_, mut ast, errors) = front(&text)?;
        if !errors.is_empty() {
            return Err(format!("a well-formed document is diagnosed: {:?}", errors));
        }
        if c.r.chance(30) {
            reshape(&mut c.r, &mut ast);
            c.count("reshaped trees", 1);
        }
        let before: usize = w.counters.values().sum();
        let want = match w.eval(&ast) {
            Ok(s) => s,
            Err(Fail::Harness(m)) => return Err(format!("!{}", m)),
            Err(Fail::Expected(m)) => return Err(format!("!{}", m)),
        };
        c.count("calls observed", w.counters.values().sum::<usize>() - before);
        let got = brack_codegen::generate::generate(&ast, &mut w.plugins)
            .map_err(|e| format!("generation fails: {:#}; modules {:?}", e, w.modules))?;
        compare(&got, &want).map_err(|m| format!("{}; modules {:?}", m, w.modules))?;
        let hooked = ["document", "stmt", "expr", "text"].iter().filter(|h| w.modules.iter().any(|m| hook(m, h))).count();
        c.count(&format!("documents with {} hooks", hooked), 1);
        c.nontrivial(commands > 0 || hooked > 0, fnv(format!("{}{:?}", text, w.modules).as_bytes()));
    }
    Ok(())
}

/// Macros whose answers are nested deeply.
fn deep_answers(c: &mut Case) -> Check {
    for (call, n) in [("m7", 20), ("m8", 60)] {
        let entries = vec![Entry { command: "deep".into(), call: call.into(), args: vec![], ret: Type::TAST }];
        let flag = FeatureFlag::default();
        let mut w = World::load(c, vec![Module { name: "p".into(), entries, flag }], "deep")?;
        let text = "before {p.x <p.deep>, b} after";
        c.input(text);
        let (_, ast, errors) = front(text)?;
        ensure!(errors.is_empty(), "a well-formed document is diagnosed: {:?}", errors);
        let want = match w.expand(&ast, &ast, &mut 0) {
            Ok(t) => t,
            Err(e) => return Err(format!("!{:?}", e)),
        };
        match brack_expander::expand::expander(&ast, &mut w.plugins) {
            Ok(got) => ensure!(got == want, "the answer of a macro with {} nested calls is not what it returned", n),
            Err(e) => {
                let sign = if call == "m8" { "@answer-60-deep@ " } else { "" };
                return Err(format!("{}the answer of a macro with {} nested calls fails to expand: {:#}", sign, n, e));
            }
        }
        c.count("deep answers", 1);
    }
    Ok(())
}

pub fn c09(c: &mut Case) -> Check {
    if c.index == 0 && c.shard == 0 {
        return deep_answers(c);
    }
    if c.index % 4 == 3 {
        return crate::answers::any_answers(c, crate::answers::Judge::Tree);
    }
    let failing = c.r.chance(30);
    let modules = world(c, &Wishes { hooks: false, macros: true, failing, pure: false });
    let mut w = World::load(c, modules, "c09")?;
    c.count("plugin sets", 1);
    for _ in 0..25 {
        let want_macros = c.r.chance(85);
        let (mut d, mut text, _) = fitted(c, &w.modules.clone(), want_macros);
        let mut spoiled = false;
        if failing && want_macros && c.r.chance(30) {
            // one failing macro somewhere
            let m = c.r.pick(&w.modules).name.clone();
            let k = c.r.below(12);
            spoiled = spoil(&mut c.r, &mut d, &m, k, Kind::Angle);
            match doc::print(&mut c.r, &d, false, None) {
                Some(p) => text = p.text,
                None => continue,
            }
        }
        c.input(&text);
        let (_, ast, errors) = front(&text)?;
        if !errors.is_empty() {
            return Err(format!("a well-formed document is diagnosed: {:?}", errors));
        }
        let mut calls = 0;
        let want = match w.expand(&ast, &ast, &mut calls) {
            Ok(t) => Ok(t),
            Err(Fail::Expected(m)) => Err(m),
            Err(Fail::Harness(m)) => return Err(format!("!{}", m)),
        };
        let got = brack_expander::expand::expander(&ast, &mut w.plugins);
        c.count("macro calls", calls);
        c.nontrivial(calls > 0, fnv(text.as_bytes()));
        match (got, want) {
            (Ok(g), Ok(t)) => {
                ensure!(g == t, "the expanded tree differs: {}", first_difference(&g, &t, "document"));
                if calls == 0 {
                    ensure!(g == ast, "a document without macros is changed");
                    c.count("documents without macros", 1);
                }
            }
            (Err(_), Err(_)) => {
                c.count("failing macros", 1);
                // where a failed call leaves the plugin is not for this property to say
                return Ok(());
            }
            (Ok(_), Err(m)) => return Err(format!("expansion succeeds although {}", m)),
            (Err(e), Ok(_)) => return Err(format!("expansion fails: {:#} (spoiled: {})", e, spoiled)),
        }
    }
    Ok(())
}

pub fn first_difference(a: &AST, b: &AST, path: &str) -> String {
    let kids = |n: &AST| -> Vec<AST> {
        match n {
            AST::Document(x) | AST::Stmt(x) | AST::Expr(x) | AST::Angle(x) | AST::Square(x) | AST::Curly(x) => {
                x.children.clone()
            }
            _ => vec![],
        }
    };
    for (i, (x, y)) in kids(a).iter().zip(&kids(b)).enumerate() {
        if x != y {
            return first_difference(x, y, &format!("{}/{}", path, i));
        }
    }
    format!("at {}: {} instead of {}", path, shorten(&format!("{:?}", a), 300), shorten(&format!("{:?}", b), 300))
}

/// Turns the k-th suitable command of a document into a call that fails. False: there was none.
pub fn spoil(r: &mut Rng, d: &mut Doc, module: &str, k: usize, kind: Kind) -> bool {
    let bad = match k {
        0..=9 => (module.to_string(), format!("bad{}", k)),
        10 => (module.to_string(), "unknown".to_string()),
        _ => ("nowhere".to_string(), "bad0".to_string()),
    };
    let call = Cmd { kind, module: Head::Name(bad.0), ident: Head::Name(bad.1), args: vec![] };
    if d.stmts.is_empty() {
        d.stmts.push(vec![vec![Item::Cmd(Box::new(call))]]);
        return true;
    }
    let s = r.below(d.stmts.len());
    let l = r.below(d.stmts[s].len());
    let mut line = &mut d.stmts[s][l];
    // into an argument, as deep as it goes
    while r.chance(60) {
        let next = line.iter().position(|i| matches!(i, Item::Cmd(c) if !c.args.is_empty() && c.kind != Kind::Angle));
        match next {
            Some(i) => {
                if let Item::Cmd(c) = &mut line[i] {
                    let n = c.args.len();
                    line = &mut c.args[r.below(n)];
                } else {
                    unreachable!()
                }
            }
            None => break,
        }
    }
    let at = r.below(line.len() + 1);
    line.insert(at, Item::Cmd(Box::new(call)));
    true
}

pub fn c11(c: &mut Case) -> Check {
    // one module with many signatures; plain arguments, so that a rejected call leaves no trace at all
    let mut entries = vec![];
    for i in 0..20 {
        let ret = if c.r.chance(50) { Type::TInline } else { Type::TBlock };
        let mut args = signature(&mut c.r);
        // once in a while a long one
        if c.r.chance(6) {
            while args.len() < 12 {
                args.extend(signature(&mut c.r));
            }
            args.truncate(c.r.range(8, 14));
        }
        entries.push(Entry { command: format!("k{}", i), call: format!("c{}", i), args, ret });
    }
    // commands whose answer is empty, for arguments that come to nothing
    entries.push(Entry { command: "nil".into(), call: "empty".into(), args: vec![], ret: Type::TInline });
    entries.push(Entry { command: "pass".into(), call: "s4".into(), args: vec![Type::TInline], ret: Type::TBlock });
    let mut w = World::load(c, vec![Module { name: "p".into(), entries, flag: FeatureFlag::default() }], "c11")?;
    c.count("plugin sets", 1);
    for e in w.modules[0].entries.clone() {
        let mut counts: Vec<usize> = (0..=8).collect();
        if e.args.len() > 6 {
            counts.extend(9..=15);
        }
        if c.r.chance(12) {
            let extra = [16usize, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 128, 255, 256, 257, 300];
            counts.push(*c.r.pick(&extra));
        }
        for n in counts {
            let (open, close) = if e.ret == Type::TInline { ("[", "]") } else { ("{", "}") };
            let fits = |n: usize| bind(&e.args, &vec![String::new(); n]).is_some();
            let args: Vec<String> = (0..n)
                .map(|i| {
                    let mut s = if c.r.chance(60) { format!("{}{}", i, doc::name(&mut c.r, true)) } else { "same".into() };
                    s.retain(|ch| !"[]{}<>.,\\ \n\r".contains(ch));
                    // a rejected call leaves its arguments' evaluation open, so those are plain
                    if fits(n) {
                        match c.r.below(12) {
                            0 => s = "[p.nil]".into(),
                            1 => s = format!("{{p.pass {}}}", s),
                            2 => s = format!("{}[p.nil]", s),
                            _ => (),
                        }
                    }
                    s
                })
                .collect();
            let mut text = format!("{}p.{}", open, e.command);
            for (i, a) in args.iter().enumerate() {
                text.push_str(if i == 0 { " " } else { ", " });
                text.push_str(a);
            }
            text.push_str(close);
            c.input(&text);
            let (_, ast, errors) = front(&text)?;
            ensure!(errors.is_empty(), "a well-formed document is diagnosed: {:?}", errors);
            let before = *w.counters.get("p").unwrap_or(&0);
            let want = w.eval(&ast);
            let got = brack_codegen::generate::generate(&ast, &mut w.plugins);
            c.nontrivial(!e.args.is_empty(), fnv(format!("{:?}{}", e.args, text).as_bytes()));
            match (got, want) {
                (Ok(g), Ok(t)) => {
                    compare(&g, &t).map_err(|m| format!("signature {:?} with {:?}: {}", e.args, args, m))?;
                    c.count("bound calls", 1);
                }
                (Err(_), Err(Fail::Expected(_))) => {
                    // not executed: the next call of a harmless command still has the same number
                    let n = *w.counters.get("p").unwrap_or(&0);
                    ensure!(n == before, "!the model executed a rejected call");
                    let probe = format!("c{}", e.call[1..].parse::<usize>().unwrap_or(0));
                    let _ = probe;
                    let mut again = n;
                    if let Some(h) = w.modules[0].entries.iter().find(|h| arity(&h.args).0 == 0) {
                        let text = if h.ret == Type::TInline { format!("[p.{}]", h.command) } else { format!("{{p.{}}}", h.command) };
                        let (_, ast, _) = front(&text)?;
                        let input = bind(&h.args, &[]).ok_or("!bind")?;
                        let t = answer(&h.call, &mut again, &input)?;
                        w.counters.insert("p".into(), again);
                        let g = brack_codegen::generate::generate(&ast, &mut w.plugins).map_err(|e| format!("{} fails: {:#}", text, e))?;
                        compare(&g, &t).map_err(|m| format!("after the rejected {:?} with {} arguments: {}", e.args, n, m))?;
                        c.count("rejections confirmed as not executed", 1);
                    }
                    c.count("rejected calls", 1);
                }
                (Ok(g), Err(Fail::Expected(m))) => {
                    return Err(format!("signature {:?} accepts {} arguments ({}): {:?}", e.args, n, m, g))
                }
                (Err(x), Ok(_)) => return Err(format!("signature {:?} rejects {} arguments: {:#}", e.args, n, x)),
                (_, Err(Fail::Harness(m))) => return Err(format!("!{}", m)),
            }
        }
    }
    Ok(())
}

pub fn c12(c: &mut Case) -> Check {
    if c.index % 3 == 2 {
        return c12_hooks(c);
    }
    // few names, shared by modules and kinds; every entry answers differently
    // (a name declared twice with one kind in one module has no defined meaning)
    let mut names: Vec<String> = vec!["a".into(), "b".into()];
    let third = doc::name(&mut c.r, true);
    if !names.contains(&third) {
        names.push(third);
    }
    let module_names: Vec<String> = ["a", "b", "ab", "m", "A"].iter().map(|s| s.to_string()).collect();
    let mut order = module_names.clone();
    c.r.shuffle(&mut order);
    order.truncate(c.r.range(2, 4));
    let mut modules = vec![];
    let mut next = 0;
    for name in &order {
        let mut entries = vec![];
        for cmd in &names {
            for ret in [Type::TInline, Type::TBlock, Type::TAST] {
                if c.r.chance(60) && next < 20 {
                    let call = if ret == Type::TAST {
                        c.r.pick(&["m0", "m1"]).to_string()
                    } else {
                        next += 1;
                        format!("c{}", next - 1)
                    };
                    entries.push(Entry { command: cmd.clone(), call, args: vec![Type::TArray(Box::new(Type::TInline))], ret });
                }
            }
        }
        modules.push(Module { name: name.clone(), entries, flag: FeatureFlag::default() });
    }
    let mut w = World::load(c, modules, "c12")?;
    c.count("plugin sets", 1);
    for module in &module_names {
        for name in names.iter().chain([&"zz".to_string(), &"A".to_string(), &"".to_string()]) {
            if name.is_empty() {
                continue;
            }
            for kind in [Kind::Square, Kind::Curly, Kind::Angle] {
                let text = format!("{}{}.{} x{}", kind.open(), module, name, kind.close());
                c.input(&text);
                let (_, ast, _) = front(&text)?;
                let known = w.modules.iter().any(|m| m.name == *module);
                c.nontrivial(known, fnv(format!("{}{:?}", text, w.modules).as_bytes()));
                if kind == Kind::Angle {
                    let mut calls = 0;
                    let want = w.expand(&ast, &ast, &mut calls);
                    let got = brack_expander::expand::expander(&ast, &mut w.plugins);
                    match (got, want) {
                        (Ok(g), Ok(t)) => ensure!(g == t, "{}: {}", text, first_difference(&g, &t, "document")),
                        (Err(_), Err(Fail::Expected(_))) => c.count("unknown calls rejected", 1),
                        (g, t) => return Err(format!("{}: {:?} where {:?} is expected; {:?}", text, g, t, w.modules)),
                    }
                } else {
                    let want = w.eval(&ast);
                    let got = brack_codegen::generate::generate(&ast, &mut w.plugins);
                    match (got, want) {
                        (Ok(g), Ok(t)) => compare(&g, &t).map_err(|m| format!("{}: {}; {:?}", text, m, w.modules))?,
                        (Err(_), Err(Fail::Expected(_))) => c.count("unknown calls rejected", 1),
                        (g, t) => return Err(format!("{}: {:?} where {:?} is expected; {:?}", text, g, t, w.modules)),
                    }
                }
            }
        }
    }
    Ok(())
}

/// Loading plugins with hooks: which sets are accepted, and whose hook then runs.
fn c12_hooks(c: &mut Case) -> Check {
    const WHICH: [&str; 4] = ["document", "stmt", "expr", "text"];
    let right = |which: &str| if which == "document" || which == "stmt" { Type::TBlock } else { Type::TInline };
    let wrong = |r: &mut Rng, which: &str| {
        if r.chance(40) {
            Some(Type::TAST)
        } else if r.chance(50) {
            Some(if right(which) == Type::TBlock { Type::TInline } else { Type::TBlock })
        } else {
            None
        }
    };
    let n = c.r.range(1, 3);
    // (declared kind, enabled) of every hook of every plugin
    let mut plan: Vec<Vec<(Option<Type>, bool)>> = vec![];
    let chaos = c.r.chance(20);
    for _ in 0..n {
        let mut row = vec![];
        for which in WHICH {
            let declared = if c.r.chance(if chaos { 60 } else { 80 }) { Some(right(which)) } else { wrong(&mut c.r, which) };
            row.push((declared, chaos && c.r.chance(35)));
        }
        plan.push(row);
    }
    if !chaos {
        // every hook has at most one owner, who declares it
        for h in 0..4 {
            let who = c.r.below(n + 1);
            if who < n && plan[who][h].0 == Some(right(WHICH[h])) {
                plan[who][h].1 = true;
            }
        }
        // and then, half of the time, exactly one thing is wrong
        if c.r.chance(50) {
            let (i, h) = (c.r.below(n), c.r.below(4));
            if n > 1 && c.r.chance(40) {
                let j = (i + 1 + c.r.below(n - 1)) % n;
                for k in [i, j] {
                    plan[k][h] = (Some(right(WHICH[h])), true);
                }
            } else {
                for row in &mut plan {
                    row[h].1 = false;
                }
                plan[i][h] = (wrong(&mut c.r, WHICH[h]), true);
            }
        }
    }
    let mut modules: Vec<Module> = vec![];
    let mut owners: HashMap<&str, usize> = HashMap::new();
    let mut loadable = true;
    let mut next = 0;
    for (i, row) in plan.into_iter().enumerate() {
        let mut entries = vec![];
        let mut flag = FeatureFlag::default();
        for (which, (declared, enabled)) in WHICH.into_iter().zip(row) {
            if let Some(ret) = &declared {
                entries.push(Entry { command: which.into(), call: format!("c{}", next), args: vec![Type::TInline], ret: ret.clone() });
                next += 1;
            }
            if enabled {
                *owners.entry(which).or_insert(0) += 1;
                if declared != Some(right(which)) {
                    loadable = false;
                }
                match which {
                    "document" => flag.document_hook = true,
                    "stmt" => flag.stmt_hook = true,
                    "expr" => flag.expr_hook = true,
                    _ => flag.text_hook = true,
                }
            }
        }
        c.r.shuffle(&mut entries);
        modules.push(Module { name: format!("m{}", i), entries, flag });
    }
    let unique = owners.values().all(|n| *n <= 1);
    let note = format!("{:?}", modules);
    c.input(&note);
    c.nontrivial(!owners.is_empty(), fnv(note.as_bytes()));
    let mut order: Vec<usize> = (0..n).collect();
    c.r.shuffle(&mut order);
    let mut plugins = vec![];
    let mut error = None;
    for i in order {
        let m = &modules[i];
        let path = c.dir.join(format!("h{}.{}.wasm", c.shard, i));
        crate::plug::write(&c.wasm, &path, &metadata(&m.entries))?;
        match load(&path, &m.name, m.flag.clone()) {
            Ok(p) => plugins.push(p),
            Err(e) => error = Some(e),
        }
    }
    let loaded = match error {
        Some(e) => Err(e),
        None => Plugins::new(plugins).map_err(|e| format!("{:#}", e)),
    };
    if !(loadable && unique) {
        c.count("hook sets with a fault", 1);
    }
    match loaded {
        Err(e) => {
            ensure!(!loadable || !unique, "sound hooks are rejected: {}: {}", e, note);
            c.count(if loadable { "hooks with two owners rejected" } else { "undeclared hooks rejected" }, 1);
        }
        Ok(plugins) => {
            ensure!(loadable, "a hook which the plugin does not declare is accepted: {}", note);
            ensure!(unique, "a hook with two owners is accepted: {}", note);
            let mut w = World { modules, plugins, counters: HashMap::new(), trees: vec![] };
            let text = "hello\n\nx";
            let (_, ast, _) = front(text)?;
            let want = match w.eval(&ast) {
                Ok(s) => s,
                Err(e) => return Err(format!("!{:?}", e)),
            };
            let got = brack_codegen::generate::generate(&ast, &mut w.plugins).map_err(|e| format!("generation fails: {:#}", e))?;
            compare(&got, &want).map_err(|m| format!("hooks: {}; {}", m, note))?;
            c.count("hook sets accepted", 1);
        }
    }
    Ok(())
}

pub fn c13(c: &mut Case) -> Check {
    if c.index % 8 == 3 {
        return crate::cli::c13_processes(c);
    }
    if c.index % 8 == 7 {
        return c13_hooks(c);
    }
    if c.index % 8 == 5 {
        return c13_turns(c);
    }
    let modules = world(c, &Wishes { hooks: false, macros: true, failing: true, pure: true });
    let only_pure: Vec<Module> = modules
        .iter()
        .map(|m| Module {
            name: m.name.clone(),
            entries: m.entries.iter().filter(|e| e.call.starts_with('s')).cloned().collect(),
            flag: FeatureFlag::default(),
        })
        .collect();
    let mut w = World::load(c, modules, "c13")?;
    c.count("plugin sets", 1);
    for _ in 0..20 {
        // a document that fails
        let kind = *c.r.pick(&[Kind::Square, Kind::Curly, Kind::Angle]);
        let (mut d, _, _) = fitted(c, &only_pure, false);
        let k = c.r.below(12);
        let module = c.r.pick(&w.modules).name.clone();
        spoil(&mut c.r, &mut d, &module, k, kind);
        let p = match doc::print(&mut c.r, &d, false, None) {
            Some(p) => p,
            None => continue,
        };
        c.input(&p.text);
        let (_, ast, _) = front(&p.text)?;
        let got = brack_expander::expand::expander(&ast, &mut w.plugins)
            .and_then(|t| brack_codegen::generate::generate(&t, &mut w.plugins));
        ensure!(got.is_err(), "a document whose command bad{} ({:?}) fails is generated: {:?}", k, kind, got);
        c.count(&format!("failure {} as {:?}", k, kind), 1);
        c.nontrivial(true, fnv(p.text.as_bytes()));
        // a document that succeeds, whatever happened before
        let (_, text, _) = fitted(c, &only_pure, false);
        c.input(&text);
        let (_, ast, _) = front(&text)?;
        let want = match w.eval(&ast) {
            Ok(s) => s,
            Err(e) => return Err(format!("!{:?}", e)),
        };
        let got = brack_codegen::generate::generate(&ast, &mut w.plugins)
            .map_err(|e| format!("a document fails after an earlier failure (bad{} as {:?}): {:#}", k, kind, e))?;
        compare(&got, &want).map_err(|m| format!("after a failing call: {}", m))?;
        c.count("documents generated after a failure", 1);
    }
    Ok(())
}

/// A failing hook fails generation, whatever was generated before.
fn c13_hooks(c: &mut Case) -> Check {
    for which in ["document", "stmt", "expr", "text"] {
        let ret = if which == "document" || which == "stmt" { Type::TBlock } else { Type::TInline };
        let call = *c.r.pick(&["f_trap", "f_err", "f_err0", "f_rc", "f_outerr", "f_utf8", "f_oob", "f_div", "f_stack", "gone"]);
        let flag = FeatureFlag {
            document_hook: which == "document",
            stmt_hook: which == "stmt",
            expr_hook: which == "expr",
            text_hook: which == "text",
        };
        let good = Entry { command: "g".into(), call: "s3".into(), args: vec![Type::TArray(Box::new(Type::TInline))], ret: Type::TInline };
        let entries = vec![good, Entry { command: which.into(), call: call.into(), args: vec![Type::TInline], ret }];
        let mut w = World::load(c, vec![Module { name: "p".into(), entries, flag }], "c13")?;
        c.count("plugin sets", 1);
        for _ in 0..4 {
            let text = format!("{}{}", c.r.pick(&["hello", "x[p.g y]", "[p.g y, z]x", "\\[", "a\n\nb"]), doc::name(&mut c.r, false).replace(['"', '\\'], ""));
            c.input(&text);
            let (_, ast, _) = front(&text)?;
            let got = brack_codegen::generate::generate(&ast, &mut w.plugins);
            ensure!(got.is_err(), "generation succeeds although the {} hook is {}: {:?}", which, call, got);
            c.nontrivial(true, fnv(format!("{}{}{}", which, call, text).as_bytes()));
            c.count("failing hooks", 1);
        }
    }
    Ok(())
}

/// A plugin which fails at every other call: a call that fails is not made again.
fn c13_turns(c: &mut Case) -> Check {
    let hook = *c.r.pick(&["", "", "", "document", "stmt", "expr", "text"]);
    let flag = FeatureFlag {
        document_hook: hook == "document",
        stmt_hook: hook == "stmt",
        expr_hook: hook == "expr",
        text_hook: hook == "text",
    };
    let mut entries = vec![];
    for (ret, call) in [(Type::TInline, "t_text"), (Type::TBlock, "t_text"), (Type::TAST, "t_node")] {
        entries.push(Entry { command: "t".into(), call: call.into(), args: vec![], ret });
    }
    if !hook.is_empty() {
        let ret = if hook == "document" || hook == "stmt" { Type::TBlock } else { Type::TInline };
        entries.push(Entry { command: hook.into(), call: "t_text".into(), args: vec![Type::TInline], ret });
    }
    let mut w = World::load(c, vec![Module { name: "p".into(), entries, flag }], "c13")?;
    c.count("plugin sets", 1);
    let mut calls = 0;
    for _ in 0..8 {
        // with a hook, no command: the hook is called once
        let text = if hook.is_empty() { c.r.pick(&["[p.t]", "{p.t}", "<p.t>"]).to_string() } else { doc::name(&mut c.r, false).replace(['"', '\\'], "y") + "x" };
        c.input(&text);
        let (_, ast, _) = front(&text)?;
        let got = brack_expander::expand::expander(&ast, &mut w.plugins)
            .and_then(|t| brack_codegen::generate::generate(&t, &mut w.plugins));
        let fails = calls % 2 == 0;
        calls += 1;
        match got {
            Ok(s) => ensure!(!fails && s == "turn", "generation answers {:?} where call {} {}", s, calls, if fails { "fails" } else { "answers" }),
            Err(e) => ensure!(fails, "generation fails although call {} succeeds: {:#}", calls, e),
        }
        c.nontrivial(true, fnv(format!("turns{}{}{}", hook, calls, text).as_bytes()));
        c.count("calls that fail by turns", 1);
    }
    Ok(())
}
