//! C08: no document crashes any stage.
use crate::case::Case;
use crate::doc::{self, Shape};
use crate::front::Check;
use crate::gen::{fit, world, Module, Wishes, World};
use crate::plug::Entry;
use crate::rng::{fnv, Rng};
use crate::text::{arbitrary, NEWLINES, ODD, PLAIN, SPECIAL};
use brack_plugin::feature_flag::FeatureFlag;
use brack_plugin::types::Type;
use std::cell::RefCell;
use unicode_segmentation::UnicodeSegmentation;

pub const MAX_BYTES: usize = 64 << 10;
pub const MAX_DEPTH: usize = 100;

thread_local! {
    static WORLD: RefCell<Option<(u64, World)>> = const { RefCell::new(None) };
}

/// Cuts a text where it leaves the promised sizes.
pub fn limited(s: &str, max_bytes: usize) -> String {
    let mut open: Vec<char> = vec![];
    let mut escaped = false;
    let mut end = 0;
    for (i, ch) in s.char_indices() {
        if i + ch.len_utf8() > max_bytes {
            break;
        }
        match ch {
            '\\' => escaped = !escaped,
            '[' | '{' | '<' => {
                // an escaped bracket counts as well: how it is read is what is being tested
                open.push(ch);
                if open.len() > MAX_DEPTH {
                    break;
                }
                escaped = false;
            }
            ']' | '}' | '>' => {
                let want = match ch {
                    ']' => '[',
                    '}' => '{',
                    _ => '<',
                };
                if !escaped && open.last() == Some(&want) {
                    open.pop();
                }
                escaped = false;
            }
            _ => escaped = false,
        }
        end = i + ch.len_utf8();
    }
    s[..end].to_string()
}

fn deep(r: &mut Rng) -> String {
    let depth = r.range(20, MAX_DEPTH);
    let mut s = String::new();
    let mut closers = vec![];
    let style = r.below(6);
    for _ in 0..depth {
        let (o, c) = match style {
            0 => ("[", "]"),
            1 => ("{", "}"),
            2 => ("<", ">"),
            _ => *r.pick(&[("[", "]"), ("{", "}"), ("<", ">")]),
        };
        s.push_str(o);
        let head = *r.pick(&["a.b ", "a.b ", "a.b ", "a.b x, ", "a.b \n", "", "a.", "a", ".b ", "a.b x.y ", "a.b , "]);
        s.push_str(if style < 4 { "a.b " } else { head });
        closers.push(c);
    }
    s.push_str(r.pick(PLAIN));
    let keep = if r.chance(60) { depth } else { r.below(depth + 1) };
    for _ in 0..keep {
        if style == 5 && r.chance(10) {
            s.push_str(r.pick(SPECIAL));
        }
        s.push_str(closers.pop().unwrap_or(""));
    }
    s
}

fn mutate(r: &mut Rng, s: &str) -> String {
    let mut g: Vec<String> = s.graphemes(true).map(|x| x.to_string()).collect();
    for _ in 0..r.range(1, 6) {
        let at = r.below(g.len() + 1);
        match r.below(5) {
            0 if !g.is_empty() => {
                g.remove(at.min(g.len() - 1));
            }
            1 => g.insert(at, r.pick(SPECIAL).to_string()),
            2 => g.insert(at, r.pick(NEWLINES).to_string()),
            3 => g.truncate(at),
            _ if !g.is_empty() => {
                let from = at.min(g.len() - 1);
                let to = (from + r.below(12)).min(g.len());
                let piece: Vec<String> = g[from..to].to_vec();
                let at = r.below(g.len() + 1);
                for (k, p) in piece.into_iter().enumerate() {
                    g.insert(at + k, p);
                }
            }
            _ => (),
        }
    }
    g.concat()
}

fn large(r: &mut Rng) -> String {
    let size = if r.chance(50) { MAX_BYTES } else { r.range(4 << 10, MAX_BYTES) };
    let mut s = String::new();
    match r.below(8) {
        // one very long line, or very many short ones, and then something else
        6 | 7 => {
            let piece = match r.below(6) {
                0 => r.pick(SPECIAL).to_string(),
                1 => r.pick(ODD).to_string(),
                2 => r.pick(NEWLINES).to_string(),
                3 => "[a.b x, y] ".to_string(),
                4 => " ".to_string(),
                _ => "x".to_string(),
            };
            let most = MAX_BYTES - 200;
            let size = *r.pick(&[10_000, 1 << 15, (1 << 15) + 10, 40_000, most, most]);
            if r.chance(30) {
                s.push_str(&arbitrary(r, 10));
            }
            while s.len() < size {
                s.push_str(&piece);
            }
            s.push_str(*r.pick(&["\n", "\n", "\r\n", "\n\n", "[a.b x]", "]", "x", "\\\n"]));
            s.push_str(&arbitrary(r, 60));
        }
        // one piece again and again
        0 | 1 => {
            let piece = match r.below(5) {
                0 => r.pick(SPECIAL).to_string(),
                1 => r.pick(ODD).to_string(),
                2 => r.pick(NEWLINES).to_string(),
                3 => arbitrary(r, 6),
                _ => "[a.b x, y]".to_string(),
            };
            let piece = if piece.is_empty() { "x".to_string() } else { piece };
            while s.len() < size {
                s.push_str(&piece);
            }
        }
        // one line, one word, many arguments
        2 => {
            s.push_str("[a.b ");
            while s.len() < size {
                s.push_str(r.pick(&["x, ", ",", " x", "é,"]));
            }
            s.push(']');
        }
        3 => {
            while s.len() < size {
                let (_, p) = doc::well_formed(r);
                s.push_str(&p.text);
                s.push_str(r.pick(NEWLINES));
            }
        }
        _ => {
            while s.len() < size {
                s.push_str(&arbitrary(r, 200));
            }
        }
    }
    s
}

/// Gives one call other arguments than it takes, of any size and characters.
fn unfit(r: &mut Rng, d: &mut doc::Doc) {
    let mut at = vec![];
    for (s, stmt) in d.stmts.iter().enumerate() {
        for (l, line) in stmt.iter().enumerate() {
            for (i, item) in line.iter().enumerate() {
                if matches!(item, doc::Item::Cmd(_)) {
                    at.push((s, l, i));
                }
            }
        }
    }
    if at.is_empty() {
        return;
    }
    let (s, l, i) = *r.pick(&at);
    if let doc::Item::Cmd(c) = &mut d.stmts[s][l][i] {
        if r.chance(30) {
            c.args.truncate(r.below(3));
        } else {
            for _ in 0..r.range(1, 6) {
                let n = *r.pick(&[1usize, 2, 8, 30, 100]);
                let text: String = (0..n).map(|_| doc::name(r, true)).collect();
                c.args.push(vec![doc::Item::Text(vec![text])]);
            }
        }
    }
}

/// Calls of commands there are, by themselves, with any number of arguments of any size.
fn calls(r: &mut Rng, modules: &[Module]) -> String {
    let mut out = String::new();
    for _ in 0..r.range(1, 3) {
        let m = r.pick(modules);
        if m.entries.is_empty() {
            continue;
        }
        let e = r.pick(&m.entries);
        let (open, close) = match (&e.ret, r.below(10)) {
            (_, 0) => *r.pick(&[('[', ']'), ('{', '}'), ('<', '>')]),
            (Type::TAST, _) => ('<', '>'),
            (Type::TBlock, _) => ('{', '}'),
            _ => ('[', ']'),
        };
        let mut args = vec![];
        for _ in 0..r.range(0, e.args.len() + 3) {
            let n = *r.pick(&[1usize, 2, 4, 8, 16, 40, 120]);
            let same = doc::name(r, true);
            let one = r.chance(50);
            let text: String = (0..n).map(|_| if one { same.clone() } else { doc::name(r, true) }).collect();
            args.push(text);
        }
        out.push_str(&format!("{}{}.{} {}{}", open, m.name, e.command, args.join(", "), close));
        out.push_str(r.pick(&["", "\n", "\n\n", " x "]));
    }
    out
}

/// One of the documents whatever stage must survive.
pub fn hostile(r: &mut Rng, modules: &[Module], big: bool) -> String {
    let text = if big {
        large(r)
    } else {
        match r.below(10) {
            0 if !modules.is_empty() && r.chance(50) => calls(r, modules),
            0..=3 => arbitrary(r, 60),
            4 => deep(r),
            5 | 6 => {
                let (_, p) = doc::well_formed(r);
                mutate(r, &p.text)
            }
            k => {
                let shape = Shape::random(r);
                let mut d = doc::document(r, &shape);
                fit(r, &mut d, modules, true);
                if r.chance(25) {
                    unfit(r, &mut d);
                }
                let layout = r.chance(50);
                match doc::print(r, &d, layout, None) {
                    Some(p) if k == 7 => mutate(r, &p.text),
                    Some(p) => p.text,
                    None => String::new(),
                }
            }
        }
    };
    limited(&text, MAX_BYTES)
}

fn modules(c: &mut Case) -> Vec<Module> {
    let failing = c.r.chance(50);
    let hooks = c.r.chance(60);
    let mut modules = world(c, &Wishes { hooks, macros: true, failing, pure: false });
    // what the fragments of arbitrary texts call
    let any = vec![Type::TArray(Box::new(Type::TInline))];
    let mut entries = vec![];
    for name in ["b", "c", "d", "h"] {
        for (ret, call) in [(Type::TInline, "s1"), (Type::TBlock, "s2"), (Type::TAST, "m1")] {
            entries.push(Entry { command: name.into(), call: call.into(), args: any.clone(), ret });
        }
    }
    if !modules.iter().any(|m| m.name == "a") {
        modules.push(Module { name: "a".into(), entries, flag: FeatureFlag::default() });
    }
    modules
}

pub fn c08(c: &mut Case) -> Check {
    if c.index % 100 == 50 {
        return crate::cli::c08_compile(c);
    }
    if c.index % 100 == 25 {
        return crate::answers::any_answers(c, crate::answers::Judge::Nothing);
    }
    WORLD.with(|slot| {
        let mut slot = slot.borrow_mut();
        let group = c.index / 200;
        if slot.as_ref().map(|x| x.0) != Some(group) {
            // the plugins of a group of cases depend on nothing but the group, so that a case can be repeated alone
            let keep = c.r.clone();
            c.r = Rng::new(0x08, c.shard, group);
            let m = modules(c);
            *slot = Some((group, World::load(c, m, "c08")?));
            c.r = keep;
            c.count("plugin sets", 1);
        }
        let w = &mut slot.as_mut().ok_or("!no plugins")?.1;
        let big = c.index % 50 == 49;
        let text = hostile(&mut c.r, &w.modules, big);
        c.input(&text);
        c.count("bytes", text.len());
        if big {
            c.count("documents over 4 KiB", 1);
        }
        let tokens = match brack_tokenizer::tokenize::tokenize_str(&text) {
            Ok(t) => t,
            Err(_) => {
                c.count("tokenize reported an error", 1);
                return Ok(());
            }
        };
        let cst = match brack_parser::parse::parse(&tokens) {
            Ok(t) => t,
            Err(_) => {
                c.count("parse reported an error", 1);
                c.nontrivial(text.len() > 1, fnv(text.as_bytes()));
                return Ok(());
            }
        };
        let (ast, errors) = brack_transformer::transform::transform(&cst);
        for e in &errors {
            let _ = (e.get_location(), e.get_message());
        }
        if !errors.is_empty() {
            c.count("diagnosed", 1);
        }
        c.nontrivial(text.len() > 1, fnv(text.as_bytes()));
        let tree = match brack_expander::expand::expander(&ast, &mut w.plugins) {
            Ok(t) => t,
            Err(_) => {
                c.count("expansion reported an error", 1);
                ast.clone()
            }
        };
        match brack_codegen::generate::generate(&tree, &mut w.plugins) {
            Ok(_) => c.count("generated", 1),
            Err(_) => c.count("generation reported an error", 1),
        }
        Ok(())
    })
}
