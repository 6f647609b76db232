//! Macros answering any tree at all: what they answer is put in and generated, or refused, as it stands.
use crate::case::Case;
use crate::ensure;
use crate::front::{front, Check};
use crate::gen::{compare, first_difference, fitted, world, Fail, Module, Wishes, World};
use crate::plug::Entry;
use crate::rng::{fnv, Rng};
use crate::serial::{any_ast, any_string};
use crate::text::PLAIN;
use brack_plugin::types::Type;
use brack_tokenizer::tokens::mock_location;
use brack_transformer::ast::{InnerNode, LeafNode, AST};

fn leaf(r: &mut Rng, value: Option<String>) -> LeafNode {
    LeafNode { id: any_string(r), value, location: mock_location() }
}

/// A tree which mostly means something with these modules.
fn sensible(r: &mut Rng, modules: &[Module], depth: usize, top: bool) -> AST {
    if r.chance(3) {
        return any_ast(r, depth.min(2));
    }
    let kind = if depth == 0 { 9 } else { r.below(10) };
    let id = any_string(r);
    let location = mock_location();
    let kids = |r: &mut Rng| -> Vec<AST> {
        let n = r.range(0, 3);
        (0..n).map(|_| sensible(r, modules, depth - 1, false)).collect()
    };
    match kind {
        0 if top || r.chance(5) => {
            let children = kids(r);
            AST::Stmt(InnerNode { id, children, location })
        }
        0..=3 => {
            let children = kids(r);
            AST::Expr(InnerNode { id, children, location })
        }
        4..=7 => {
            let m = r.pick(modules);
            let e = r.pick(&m.entries).clone();
            let name = |r: &mut Rng, s: &str| if r.chance(2) { None } else if r.chance(2) { Some(any_string(r)) } else { Some(s.to_string()) };
            let (module, ident) = (name(r, &m.name), name(r, &e.command));
            let mut children = vec![AST::Module(leaf(r, module)), AST::Ident(leaf(r, ident))];
            if r.chance(2) {
                children.swap(0, 1);
            }
            if r.chance(2) {
                children.pop();
            }
            for _ in 0..e.args.len() + *r.pick(&[0usize, 0, 0, 0, 0, 0, 1]) {
                children.push(sensible(r, modules, depth - 1, false));
            }
            let node = InnerNode { id, children, location };
            match e.ret {
                Type::TInline => AST::Square(node),
                Type::TBlock => AST::Curly(node),
                _ if r.chance(15) => AST::Angle(node),
                _ => AST::Square(node),
            }
        }
        _ => {
            let value = if r.chance(3) { None } else if r.chance(60) { Some(r.pick(PLAIN).to_string()) } else { Some(any_string(r)) };
            AST::Text(leaf(r, value))
        }
    }
}

/// A document or statement where no document has one: whether those are accepted is left open.
fn misplaced(n: &AST, under: usize) -> bool {
    let (level, kids) = match n {
        AST::Document(x) => (0, &x.children),
        AST::Stmt(x) => (1, &x.children),
        AST::Expr(x) | AST::Angle(x) | AST::Square(x) | AST::Curly(x) => (2, &x.children),
        _ => return false,
    };
    (level < 2 && level < under) || kids.iter().any(|k| misplaced(k, if level < 2 { level + 1 } else { 2 }))
}

/// What is judged: the tree after expansion, or what is generated from it, or that nothing crashes.
#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    Tree,
    Text,
    Nothing,
}

pub fn any_answers(c: &mut Case, judge: Judge) -> Check {
    let hooks = c.r.chance(30);
    let mut modules = world(c, &Wishes { hooks, macros: false, failing: false, pure: true });
    let plain = modules.clone();
    let mut trees = vec![];
    let mut size = 0;
    for _ in 0..8 {
        let depth = *c.r.pick(&[0usize, 1, 2, 3, 4, 6]);
        let t = if c.r.chance(20) { any_ast(&mut c.r, depth.min(4)) } else { sensible(&mut c.r, &plain, depth, true) };
        let n = serde_json::to_string(&t).map_err(|e| format!("!{}", e))?.len();
        if size + n > 48_000 {
            continue;
        }
        size += n + 1;
        trees.push(t);
    }
    if trees.is_empty() {
        return Ok(());
    }
    let any = vec![Type::TArray(Box::new(Type::TInline))];
    for m in &mut modules {
        m.entries.retain(|e| e.ret != Type::TAST);
        for k in 0..trees.len() {
            m.entries.push(Entry { command: format!("u{}", k), call: format!("u{}", k), args: any.clone(), ret: Type::TAST });
        }
    }
    let mut w = World::load_with(c, modules, "any", trees)?;
    c.count("plugin sets with any answers", 1);
    for _ in 0..24 {
        let (_, text, _) = fitted(c, &w.modules.clone(), true);
        c.input(&text);
        let (_, tree, errors) = match front(&text) {
            Ok(x) => x,
            Err(_) if judge == Judge::Nothing => continue,
            Err(e) => return Err(e),
        };
        if !errors.is_empty() {
            ensure!(judge == Judge::Nothing, "a well-formed document is diagnosed: {:?}", errors);
            continue;
        }
        let mut calls = 0;
        let want = match w.expand(&tree, &tree, &mut calls) {
            Ok(t) => t,
            Err(e) => return Err(format!("!{:?}", e)),
        };
        let got = match brack_expander::expand::expander(&tree, &mut w.plugins) {
            Ok(got) => got,
            Err(_) if judge == Judge::Nothing => continue,
            Err(e) => return Err(format!("macros answer well and expansion fails: {:#}; they answer {:?}", e, w.trees)),
        };
        ensure!(
            judge != Judge::Tree || got == want,
            "what a macro answered is not what is put in its place: {}",
            first_difference(&got, &want, "document")
        );
        c.count("documents with answers put in", 1);
        c.count("answers put in", calls);
        if calls > 0 {
            c.nontrivial(true, fnv(format!("{}{:?}", text, w.trees).as_bytes()));
        }
        if judge == Judge::Tree {
            continue;
        }
        let meaning = w.eval(&got);
        let made = brack_codegen::generate::generate(&got, &mut w.plugins);
        if judge == Judge::Nothing {
            c.count("answers tried in generation", 1);
            continue;
        }
        match (made, meaning) {
            (_, Err(Fail::Harness(m))) => return Err(format!("!{}", m)),
            (Ok(g), Ok(t)) => {
                compare(&g, &t).map_err(|m| format!("{}; macros answer {:?}", m, w.trees))?;
                c.count("answers generated", 1);
            }
            (Err(_), Err(_)) => c.count("answers refused", 1),
            _ if misplaced(&got, 0) => c.count("answers of no fixed meaning", 1),
            (Ok(g), Err(Fail::Expected(m))) => {
                return Err(format!("{:?} is generated although {}; macros answer {:?}", g, m, w.trees))
            }
            (Err(e), Ok(_)) => return Err(format!("generation fails: {:#}; macros answer {:?}", e, w.trees)),
        }
    }
    Ok(())
}
