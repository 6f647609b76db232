//! Trees as JSON (C32): what tools read from compile and what macros are given and give back.
use crate::case::Case;
use crate::doc;
use crate::ensure;
use crate::front::{tokenize, Check};
use crate::rng::{fnv, Rng};
use crate::text::{arbitrary, shorten, NEWLINES, ODD, PLAIN};
use brack_parser::cst::CST;
use brack_tokenizer::tokens::{Location, LocationData, Token};
use brack_transformer::ast::AST;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::fmt::Debug;

fn place(l: &Location) -> Value {
    json!({
        "start": {"line": l.start.line, "character": l.start.character},
        "end": {"line": l.end.line, "character": l.end.character},
    })
}

/// The JSON form of a token, kept independently of the derived one.
fn token(t: &Token) -> Value {
    match t {
        Token::Empty(l) => json!({"Empty": place(l)}),
        Token::Text(s, l) => json!({"Text": [s, place(l)]}),
        Token::Module(s, l) => json!({"Module": [s, place(l)]}),
        Token::Ident(s, l) => json!({"Ident": [s, place(l)]}),
        Token::NewLine(l) => json!({"NewLine": place(l)}),
        Token::WhiteSpace(l) => json!({"WhiteSpace": place(l)}),
        Token::Dot(l) => json!({"Dot": place(l)}),
        Token::BackSlash(l) => json!({"BackSlash": place(l)}),
        Token::AngleBracketOpen(l) => json!({"AngleBracketOpen": place(l)}),
        Token::AngleBracketClose(l) => json!({"AngleBracketClose": place(l)}),
        Token::SquareBracketOpen(l) => json!({"SquareBracketOpen": place(l)}),
        Token::SquareBracketClose(l) => json!({"SquareBracketClose": place(l)}),
        Token::CurlyBracketOpen(l) => json!({"CurlyBracketOpen": place(l)}),
        Token::CurlyBracketClose(l) => json!({"CurlyBracketClose": place(l)}),
        Token::Comma(l) => json!({"Comma": place(l)}),
        Token::EOF(l) => json!({"EOF": place(l)}),
    }
}

fn inner(kind: &str, id: &str, children: Vec<Value>, l: &Location) -> Value {
    json!({ kind: {"id": id, "children": children, "location": place(l)} })
}
fn leaf(kind: &str, id: &str, value: &Option<String>, l: &Location) -> Value {
    json!({ kind: {"id": id, "value": value, "location": place(l)} })
}

fn cst(n: &CST) -> Value {
    macro_rules! shape {
        ($($inner:ident)*; $($leaf:ident)*) => {
            match n {
                $(CST::$inner(x) =>
                    inner(stringify!($inner), &x.id, x.children.iter().map(cst).collect(), &x.location),)*
                $(CST::$leaf(x) => leaf(stringify!($leaf), &x.id, &x.value, &x.location),)*
            }
        };
    }
    shape!(Document Stmt Expr Angle Curly Square BackSlash;
        AngleBracketOpen AngleBracketClose SquareBracketOpen SquareBracketClose CurlyBracketOpen CurlyBracketClose
        Module Ident Text Whitespace Newline Dot Comma EOF Invalid)
}

fn ast(n: &AST) -> Value {
    macro_rules! shape {
        ($($inner:ident)*; $($leaf:ident)*) => {
            match n {
                $(AST::$inner(x) =>
                    inner(stringify!($inner), &x.id, x.children.iter().map(ast).collect(), &x.location),)*
                $(AST::$leaf(x) => leaf(stringify!($leaf), &x.id, &x.value, &x.location),)*
            }
        };
    }
    shape!(Document Stmt Expr Angle Square Curly; Ident Module Text Invalid Ignored)
}

fn string(r: &mut Rng, s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        let plain = c >= ' ' && c != '"' && c != '\\' && c != '\u{7f}';
        if plain && !r.chance(10) {
            out.push(c);
        } else if c == '"' || c == '\\' {
            if r.chance(50) {
                out.push('\\');
                out.push(c);
            } else {
                out.push_str(&format!("\\u{:04x}", c as u32));
            }
        } else {
            let mut units = [0u16; 2];
            for u in c.encode_utf16(&mut units) {
                if r.chance(50) {
                    out.push_str(&format!("\\u{:04x}", u));
                } else {
                    out.push_str(&format!("\\u{:04X}", u));
                }
            }
        }
    }
    out.push('"');
}

fn gap(r: &mut Rng, out: &mut String) {
    while r.chance(12) {
        out.push(*r.pick(&[' ', '\n', '\t', '\r']));
    }
}

/// The same JSON value written by somebody else: fields in any order, any spacing, any escapes.
fn foreign(r: &mut Rng, v: &Value, out: &mut String) {
    gap(r, out);
    match v {
        Value::String(s) => string(r, s, out),
        Value::Array(items) => {
            out.push('[');
            for (i, item) in items.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                foreign(r, item, out);
            }
            gap(r, out);
            out.push(']');
        }
        Value::Object(fields) => {
            let mut fields: Vec<_> = fields.iter().collect();
            r.shuffle(&mut fields);
            out.push('{');
            for (i, (key, item)) in fields.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(r, out);
                string(r, key, out);
                gap(r, out);
                out.push(':');
                foreign(r, item, out);
            }
            gap(r, out);
            out.push('}');
        }
        other => out.push_str(&other.to_string()),
    }
    gap(r, out);
}

fn depth(v: &Value) -> usize {
    match v {
        Value::Array(items) => 1 + items.iter().map(depth).max().unwrap_or(0),
        Value::Object(fields) => 1 + fields.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

fn agree<T>(c: &mut Case, what: &str, value: &T, want: Value) -> Check
where
    T: Serialize + DeserializeOwned + PartialEq + Debug,
{
    let got = serde_json::to_value(value).map_err(|e| format!("a {} has no JSON form: {}", what, e))?;
    ensure!(
        got == want,
        "the JSON form of a {} is {} instead of {}",
        what,
        shorten(&got.to_string(), 600),
        shorten(&want.to_string(), 600)
    );
    let text = serde_json::to_string(value).map_err(|e| format!("a {} cannot be written: {}", what, e))?;
    ensure!(
        serde_json::to_string(value).ok().as_deref() == Some(&text),
        "a {} is written in two ways",
        what
    );
    // reading stops at 128 levels of JSON
    if depth(&want) > 120 {
        c.count(&format!("{}s too deep to read", what), 1);
        return Ok(());
    }
    let read: Value = serde_json::from_str(&text).map_err(|e| format!("the JSON of a {} is not JSON: {}", what, e))?;
    ensure!(read == want, "the JSON text of a {} says {}", what, shorten(&read.to_string(), 600));
    let mut other = String::new();
    foreign(&mut c.r, &want, &mut other);
    let pretty = serde_json::to_string_pretty(&want).map_err(|e| format!("!{}", e))?;
    for (how, text) in [("its own", &text), ("a reordered", &other), ("a pretty-printed", &pretty)] {
        let back: T = serde_json::from_str(text)
            .map_err(|e| format!("a {} cannot be read from {} JSON text {}: {}", what, how, shorten(text, 600), e))?;
        ensure!(
            &back == value,
            "a {} read from {} JSON text is {} instead of {}",
            what,
            how,
            shorten(&format!("{:?}", back), 600),
            shorten(&format!("{:?}", value), 600)
        );
    }
    let back: T = serde_json::from_value(want).map_err(|e| format!("a {} cannot be read: {}", what, e))?;
    ensure!(&back == value, "a {} read from a JSON value differs", what);
    c.count(&format!("{}s", what), 1);
    Ok(())
}

pub fn any_string(r: &mut Rng) -> String {
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 8, 40]);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(5) {
            0 | 1 => s.push_str(r.pick(PLAIN)),
            2 => s.push_str(r.pick(ODD)),
            3 => s.push_str(r.pick(NEWLINES)),
            _ => s.push_str(r.pick(&["\"", "\\", "{", "[", "\u{0}", "\u{1f}", "/", "null"])),
        }
    }
    s
}

fn any_location(r: &mut Rng) -> Location {
    let mut n = || *r.pick(&[0usize, 1, 2, 7, 255, 256, 65535, 65536, 1 << 31, 1 << 32, (1 << 53) + 1, usize::MAX]);
    Location {
        start: LocationData { line: n(), character: n() },
        end: LocationData { line: n(), character: n() },
    }
}

fn any_token(r: &mut Rng) -> Token {
    let l = any_location(r);
    match r.below(16) {
        0 => Token::Empty(l),
        1 => Token::Text(any_string(r), l),
        2 => Token::Module(any_string(r), l),
        3 => Token::Ident(any_string(r), l),
        4 => Token::NewLine(l),
        5 => Token::WhiteSpace(l),
        6 => Token::Dot(l),
        7 => Token::BackSlash(l),
        8 => Token::AngleBracketOpen(l),
        9 => Token::AngleBracketClose(l),
        10 => Token::SquareBracketOpen(l),
        11 => Token::SquareBracketClose(l),
        12 => Token::CurlyBracketOpen(l),
        13 => Token::CurlyBracketClose(l),
        14 => Token::Comma(l),
        _ => Token::EOF(l),
    }
}

macro_rules! any_tree {
    ($name:ident, $ty:ident, $module:path, $($inner:ident)*; $($leaf:ident)*) => {
        /// A tree no document need have: macros may return any.
        pub fn $name(r: &mut Rng, depth: usize) -> $ty {
            use $module as m;
            let location = any_location(r);
            let id = any_string(r);
            let inners = [$(stringify!($inner)),*];
            let leaves = [$(stringify!($leaf)),*];
            let kind = if depth > 0 && r.chance(60) { *r.pick(&inners) } else { *r.pick(&leaves) };
            $(if kind == stringify!($inner) {
                let n = r.range(0, 4);
                let children = (0..n).map(|_| $name(r, depth - 1)).collect();
                return $ty::$inner(m::InnerNode { id, children, location });
            })*
            let value = if r.chance(30) { None } else { Some(any_string(r)) };
            $(if kind == stringify!($leaf) {
                return $ty::$leaf(m::LeafNode { id, value, location });
            })*
            unreachable!()
        }
    };
}
any_tree!(any_cst, CST, brack_parser::cst, Document Stmt Expr Angle Curly Square BackSlash;
    AngleBracketOpen AngleBracketClose SquareBracketOpen SquareBracketClose CurlyBracketOpen CurlyBracketClose
    Module Ident Text Whitespace Newline Dot Comma EOF Invalid);
any_tree!(any_ast, AST, brack_transformer::ast, Document Stmt Expr Angle Square Curly;
    Ident Module Text Invalid Ignored);

pub fn c32(c: &mut Case) -> Check {
    if c.r.chance(35) {
        // trees of any content, as plugins may build them
        let d = c.r.range(0, 5);
        let t = any_ast(&mut c.r, d);
        c.input(&ast(&t).to_string());
        agree(c, "abstract tree", &t, ast(&t))?;
        let k = any_cst(&mut c.r, d);
        c.input(&cst(&k).to_string());
        agree(c, "concrete tree", &k, cst(&k))?;
        let n = c.r.range(0, 12);
        let tokens: Vec<Token> = (0..n).map(|_| any_token(&mut c.r)).collect();
        let want = Value::Array(tokens.iter().map(token).collect());
        c.input(&want.to_string());
        agree(c, "token list", &tokens, want)?;
        c.nontrivial(d > 0 || n > 0, fnv(cst(&k).to_string().as_bytes()));
        return Ok(());
    }
    let text = if c.r.chance(60) {
        doc::well_formed(&mut c.r).1.text
    } else {
        let budget = *c.r.pick(&[6usize, 20, 60, 150]);
        arbitrary(&mut c.r, budget)
    };
    c.input(&text);
    let tokens = tokenize(&text)?;
    agree(c, "token list", &tokens, Value::Array(tokens.iter().map(token).collect()))?;
    let Ok(concrete) = brack_parser::parse::parse(&tokens) else {
        return Ok(());
    };
    agree(c, "concrete tree", &concrete, cst(&concrete))?;
    let (tree, _) = brack_transformer::transform::transform(&concrete);
    agree(c, "abstract tree", &tree, ast(&tree))?;
    c.nontrivial(tokens.len() > 4, fnv(text.as_bytes()));
    Ok(())
}
