//! Monitors for the front end: tokens (C01–C03), trees (C04–C06, C25), diagnostics (C07).
use crate::case::Case;
use crate::doc::{self, Fault, Kind, Node, Shade, Tok};
use crate::rng::{fnv, Rng};
use crate::wf::{form, tree, Form};
use crate::text::{arbitrary, end, shorten, start, Map};
use brack_parser::cst::CST;
use brack_tokenizer::tokens::{Location, Token};
use brack_transformer::ast::AST;
use std::collections::HashSet;
use unicode_segmentation::UnicodeSegmentation;

pub type Check = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err(format!($($arg)*)); } };
}

pub fn tok(t: &Token) -> Option<Tok> {
    Some(match t {
        Token::Empty(_) => return None,
        Token::Text(s, _) => Tok::Text(s.clone()),
        Token::Module(s, _) => Tok::Module(s.clone()),
        Token::Ident(s, _) => Tok::Ident(s.clone()),
        Token::NewLine(_) => Tok::NewLine,
        Token::WhiteSpace(_) => Tok::Space,
        Token::Dot(_) => Tok::Dot,
        Token::BackSlash(_) => Tok::BackSlash,
        Token::AngleBracketOpen(_) => Tok::Open(Kind::Angle),
        Token::AngleBracketClose(_) => Tok::Close(Kind::Angle),
        Token::SquareBracketOpen(_) => Tok::Open(Kind::Square),
        Token::SquareBracketClose(_) => Tok::Close(Kind::Square),
        Token::CurlyBracketOpen(_) => Tok::Open(Kind::Curly),
        Token::CurlyBracketClose(_) => Tok::Close(Kind::Curly),
        Token::Comma(_) => Tok::Comma,
        Token::EOF(_) => Tok::Eof,
    })
}

/// Source text of a token at a place in the source (a line break is LF or CRLF).
fn spelled<'a>(t: &'a Token, rest: &'a str) -> &'a str {
    match t {
        Token::Empty(_) | Token::EOF(_) => "",
        Token::Text(s, _) | Token::Module(s, _) | Token::Ident(s, _) => s,
        Token::NewLine(_) if rest.starts_with("\r\n") => "\r\n",
        Token::NewLine(_) => "\n",
        Token::WhiteSpace(_) => " ",
        Token::Dot(_) => ".",
        Token::BackSlash(_) => "\\",
        Token::AngleBracketOpen(_) => "<",
        Token::AngleBracketClose(_) => ">",
        Token::SquareBracketOpen(_) => "[",
        Token::SquareBracketClose(_) => "]",
        Token::CurlyBracketOpen(_) => "{",
        Token::CurlyBracketClose(_) => "}",
        Token::Comma(_) => ",",
    }
}

/// Byte offset of every token, or where the tokens stop spelling the text.
fn offsets(text: &str, tokens: &[Token]) -> Result<Vec<usize>, String> {
    let mut at = 0;
    let mut out = vec![];
    for (i, t) in tokens.iter().enumerate() {
        let rest = &text[at..];
        let s = spelled(t, rest);
        ensure!(
            rest.starts_with(s),
            "token {} ({:?}) does not spell the source at byte {}: {:?}",
            i,
            t,
            at,
            shorten(rest, 20)
        );
        out.push(at);
        at += s.len();
    }
    ensure!(at == text.len(), "the tokens spell only {} of {} bytes", at, text.len());
    Ok(out)
}

pub fn tokenize(text: &str) -> Result<Vec<Token>, String> {
    brack_tokenizer::tokenize::tokenize_str(text).map_err(|e| format!("tokenizing failed: {:#}", e))
}

fn interesting(text: &str) -> bool {
    text.bytes().any(|b| b"[]{}<>.,\\ \n\r".contains(&b)) && text.len() > 1
}

fn some_text(c: &mut Case, deepest: usize) -> String {
    let budget = *c.r.pick(&[3usize, 6, 12, 12, 30, 30, 80, 200]);
    let budget = if c.r.chance(1) { 1500 } else { budget };
    if c.index % 1000 == 8 {
        // many lines, words, arguments, statements or columns
        let n = *c.r.pick(&[17usize, 40, 70, 130, 260, 520, 1030, 1030, 2060, 2060, 4100]);
        let piece = *c.r.pick(&["\n", "\r\n", "a\n", "a\n\n", "x ", "[a.b]", "[a.b c]\n", "é, ", "\\,", ". ", "👍🏽\n", "\\q", ",\n", "{a.b}\n\n"]);
        let (open, close) = *c.r.pick(&[("", ""), ("", ""), ("x", "\ny"), ("[a.b ", "]"), ("{a.b ", "}\n\nx"), ("<a.b ", "> y"), ("[a.b ", "")]);
        let text = format!("{}{}{}{}", open, piece.repeat(n), close, arbitrary(&mut c.r, 6));
        c.input(&text);
        return text;
    }
    let stretched = c.index % 1000 == 7;
    let text = if stretched {
        // where a limit could hide: one very long run, line or nesting in a small text
        let budget = *c.r.pick(&[2usize, 6, 12]);
        let before = arbitrary(&mut c.r, budget);
        let after = arbitrary(&mut c.r, budget);
        let n = *c.r.pick(&[300usize, 1100, 2200, 4200, 4200, 9000]);
        let unit = match c.r.below(6) {
            0 => c.r.pick(crate::text::ODD).to_string(),
            1 => c.r.pick(crate::text::SPECIAL).to_string(),
            2 => arbitrary(&mut c.r, 4),
            _ => c.r.pick(crate::text::PLAIN).to_string(),
        };
        let head = *c.r.pick(&["", "", "[a.b ", "[", "{a.", "<a.b \\"]);
        let nesting = unit.contains(['[', '{', '<']);
        let count = (n / unit.graphemes(true).count().max(1)).min(if nesting { deepest } else { n });
        format!("{}{}{}{}", before, head, unit.repeat(count), after)
    } else if c.r.chance(30) {
        // a well-formed document with a few random cuts and insertions
        let (_, p) = doc::well_formed(&mut c.r);
        let mut gs: Vec<&str> = p.text.graphemes(true).collect();
        for _ in 0..c.r.range(0, 3) {
            let k = c.r.below(gs.len() + 1);
            match c.r.below(3) {
                0 if k < gs.len() => {
                    gs.remove(k);
                }
                1 if k < gs.len() => {
                    let j = c.r.below(gs.len());
                    gs.swap(j, k);
                }
                _ => gs.insert(k, c.r.pick(crate::text::SPECIAL)),
            }
        }
        gs.concat()
    } else {
        arbitrary(&mut c.r, budget)
    };
    c.input(&text);
    text
}

// ---------------------------------------------------------------------------------------------

/// A text that is a well-formed document, or misses being one by little.
fn near_text(c: &mut Case) -> String {
    let text = if c.r.chance(50) {
        let (_, p) = doc::well_formed(&mut c.r);
        let mut gs: Vec<&str> = p.text.graphemes(true).collect();
        for _ in 0..c.r.range(0, 2) {
            // most of a document is names and text: aim at what matters
            let targets: Vec<usize> = (0..gs.len()).filter(|i| "[]{}<>.,\\ \n".contains(gs[*i])).collect();
            let k = if targets.is_empty() || c.r.chance(20) { c.r.below(gs.len() + 1) } else { *c.r.pick(&targets) };
            match c.r.below(4) {
                0 if k < gs.len() => {
                    gs.remove(k);
                }
                1 if k + 1 < gs.len() => gs.swap(k, k + 1),
                2 if k < gs.len() => gs[k] = c.r.pick(crate::text::SPECIAL),
                _ => gs.insert(k, c.r.pick(crate::text::SPECIAL)),
            }
        }
        gs.concat()
    } else {
        let n = c.r.range(1, 16);
        let all = ["[", "]", "{", "}", "<", ">", ".", ",", " ", "\\", "\n", "a", "b", "日"];
        let mut some: Vec<&str> = all.iter().copied().filter(|_| c.r.chance(50)).collect();
        some.extend(["[", "a", ".", "b", "]"]);
        if c.r.chance(50) {
            some.extend(["[a.b", "<a.b", "[a.b ", "{a.b ", "<a.b>", "<a.b>.", "[<a.b>"]);
        }
        (0..n).map(|_| *c.r.pick(&some)).collect()
    };
    c.input(&text);
    text
}

pub fn c01(c: &mut Case) -> Check {
    let text = some_text(c, 400);
    c.nontrivial(interesting(&text), fnv(text.as_bytes()));
    let tokens = tokenize(&text)?;
    offsets(&text, &tokens)?;
    let eofs = tokens.iter().filter(|t| matches!(t, Token::EOF(_))).count();
    ensure!(eofs == 1, "{} end-of-file tokens", eofs);
    ensure!(matches!(tokens.last(), Some(Token::EOF(_))), "the last token is not the end of file: {:?}", tokens.last());
    c.count("tokens", tokens.len());
    // the same through a file
    if c.index % 16 == 0 {
        let path = c.dir.join(format!("c01.{}.[]", c.shard));
        std::fs::write(&path, &text).map_err(|e| format!("!harness: {}", e))?;
        let again = brack_tokenizer::tokenize::tokenize(&path).map_err(|e| format!("tokenizing the file failed: {}", e))?;
        ensure!(again == tokens, "the tokens of the file differ from those of its text");
        c.count("files", 1);
    }
    Ok(())
}

pub fn c02(c: &mut Case) -> Check {
    let text = some_text(c, 400);
    let tokens = tokenize(&text)?;
    let map = Map::new(&text);
    let at = offsets(&text, &tokens)?;
    let lines = map.end().0;
    c.nontrivial(interesting(&text) && tokens.len() > 3, fnv(text.as_bytes()));
    for (i, t) in tokens.iter().enumerate() {
        let l = t.get_location();
        let s = map
            .at(at[i])
            .ok_or_else(|| format!("token {} ({:?}) starts within a user-perceived character", i, t))?;
        ensure!(start(&l) == s, "token {} ({:?}) starts at {:?} in the source", i, t, s);
        let e = match t {
            Token::NewLine(_) => (s.0, s.1 + 1),
            _ => {
                let next = at[i] + spelled(t, &text[at[i]..]).len();
                map.at(next)
                    .ok_or_else(|| format!("token {} ({:?}) ends within a user-perceived character", i, t))?
            }
        };
        ensure!(end(&l) == e, "token {} ({:?}) ends at {:?} in the source", i, t, e);
        if i > 0 {
            let before = tokens[i - 1].get_location();
            let ok = match tokens[i - 1] {
                Token::NewLine(_) => s == (before.start.line + 1, 0),
                _ => start(&l) == end(&before),
            };
            ensure!(ok, "token {} ({:?}) does not continue where {:?} ended", i, t, tokens[i - 1]);
        }
    }
    c.count("tokens", tokens.len());
    c.count("line breaks", lines);
    Ok(())
}

fn merged(tokens: &[Token]) -> Vec<Tok> {
    let mut out: Vec<Tok> = vec![];
    for t in tokens.iter().filter_map(tok) {
        if let (Tok::Text(new), Some(Tok::Text(old))) = (&t, out.last_mut()) {
            old.push_str(new);
            continue;
        }
        out.push(t);
    }
    out
}

pub fn c03(c: &mut Case) -> Check {
    if c.r.chance(50) {
        // exactly the tokens that were written down
        let (_, p) = doc::well_formed(&mut c.r);
        c.input(&p.text);
        c.nontrivial(p.commands > 0, fnv(p.text.as_bytes()));
        let got = merged(&tokenize(&p.text)?);
        for (i, (g, w)) in got.iter().zip(&p.toks).enumerate() {
            ensure!(g == w, "token {} is {:?} where {:?} was written", i, g, w);
        }
        ensure!(got.len() == p.toks.len(), "{} tokens where {} were written", got.len(), p.toks.len());
        c.count("well-formed documents", 1);
        c.count("tokens", got.len());
        return Ok(());
    }
    let text = some_text(c, 400);
    let tokens = tokenize(&text)?;
    let at = offsets(&text, &tokens)?;
    let judged = contexts(&text, &tokens, &at)?;
    c.nontrivial(judged > 2, fnv(text.as_bytes()));
    c.count("arbitrary documents", 1);
    c.count("characters judged", judged);
    Ok(())
}

/// The kind every special character of an arbitrary text must have, from brackets alone.
fn contexts(text: &str, tokens: &[Token], at: &[usize]) -> Result<usize, String> {
    let mut stack: Vec<Kind> = vec![];
    let mut judged = 0;
    let gs: Vec<(usize, &str)> = text.grapheme_indices(true).collect();
    let token_at = |offset: usize| -> &Token {
        // the last token that starts at or before the offset and is not empty
        let i = at.partition_point(|o| *o <= offset) - 1;
        &tokens[i]
    };
    let exact = |offset: usize| at.binary_search(&offset).is_ok();
    let mut i = 0;
    while i < gs.len() {
        let (o, g) = gs[i];
        let t = token_at(o);
        let k = tok(t);
        let bracket = match g {
            "[" => Some((Kind::Square, true)),
            "]" => Some((Kind::Square, false)),
            "{" => Some((Kind::Curly, true)),
            "}" => Some((Kind::Curly, false)),
            "<" => Some((Kind::Angle, true)),
            ">" => Some((Kind::Angle, false)),
            _ => None,
        };
        if let Some((kind, open)) = bracket {
            let want = if open { Tok::Open(kind) } else { Tok::Close(kind) };
            ensure!(exact(o) && k == Some(want.clone()), "{:?} at byte {} is {:?}, not {:?}", g, o, t, want);
            judged += 1;
            if open {
                stack.push(kind);
                // a plain head: name . name followed by a space or the closing bracket
                if let Some((m, d, n)) = plain_head(&gs, i + 1, kind) {
                    let start = gs[i + 1].0;
                    let dot = gs[d].0;
                    let after = gs[n].0;
                    let name = text[dot + 1..after].to_string();
                    ensure!(
                        m > 0 && tok(token_at(start)) == Some(Tok::Module(text[start..dot].to_string())),
                        "{:?} before the dot at byte {} is {:?}, not a module",
                        &text[start..dot],
                        dot,
                        token_at(start)
                    );
                    ensure!(tok(token_at(dot)) == Some(Tok::Dot), "the dot at byte {} is {:?}", dot, token_at(dot));
                    ensure!(
                        tok(token_at(dot + 1)) == Some(Tok::Ident(name.clone())),
                        "{:?} after the dot at byte {} is {:?}, not an identifier",
                        name,
                        dot,
                        token_at(dot + 1)
                    );
                    judged += 3;
                }
            } else {
                match stack.last() {
                    None => (), // closes nothing
                    Some(top) if *top == kind => {
                        stack.pop();
                    }
                    // what a bracket of another kind closes is not for this property to say
                    Some(_) => return Ok(judged),
                }
            }
            i += 1;
            continue;
        }
        match g {
            "\\" => {
                ensure!(exact(o) && k == Some(Tok::BackSlash), "the backslash at byte {} is {:?}", o, t);
                judged += 1;
                // the escaped character means nothing
                if let Some((_, e)) = gs.get(i + 1) {
                    if ["[", "]", "{", "}", "<", ">", ".", ",", "\\"].contains(e) {
                        i += 2;
                        continue;
                    }
                }
            }
            "." | "," | " " => {
                let want = match g {
                    "." => Tok::Dot,
                    "," => Tok::Comma,
                    _ => Tok::Space,
                };
                if stack.is_empty() {
                    ensure!(
                        matches!(k, Some(Tok::Text(_))),
                        "{:?} at byte {} outside of any command is {:?}, not text",
                        g,
                        o,
                        t
                    );
                } else {
                    ensure!(
                        exact(o) && k == Some(want.clone()),
                        "{:?} at byte {} inside a command is {:?}, not {:?}",
                        g,
                        o,
                        t,
                        want
                    );
                }
                judged += 1;
            }
            "\n" | "\r\n" => {
                ensure!(exact(o) && k == Some(Tok::NewLine), "the line break at byte {} is {:?}", o, t);
                judged += 1;
            }
            _ => {
                let ok = match k {
                    Some(Tok::Text(_)) => true,
                    Some(Tok::Module(_)) | Some(Tok::Ident(_)) => !stack.is_empty(),
                    _ => false,
                };
                ensure!(ok, "{:?} at byte {} (in {} open commands) is {:?}", g, o, stack.len(), t);
                judged += 1;
            }
        }
        i += 1;
    }
    Ok(judged)
}

/// (length of module, index of the dot, index after the identifier) of a head without anything odd.
fn plain_head(gs: &[(usize, &str)], from: usize, kind: Kind) -> Option<(usize, usize, usize)> {
    let special = |g: &str| ["[", "]", "{", "}", "<", ">", ".", ",", "\\", " ", "\n", "\r\n"].contains(&g);
    let mut d = from;
    while d < gs.len() && !special(gs[d].1) {
        d += 1;
    }
    if d == from || d >= gs.len() || gs[d].1 != "." {
        return None;
    }
    let mut n = d + 1;
    while n < gs.len() && !special(gs[n].1) {
        n += 1;
    }
    if n == d + 1 || n >= gs.len() || (gs[n].1 != " " && gs[n].1 != kind.close()) {
        return None;
    }
    Some((d - from, d, n))
}

// ---------------------------------------------------------------------------------------------

fn cst_inner(n: &CST) -> Option<(&Vec<CST>, &str)> {
    match n {
        CST::Document(x)
        | CST::Stmt(x)
        | CST::Expr(x)
        | CST::Angle(x)
        | CST::Curly(x)
        | CST::Square(x)
        | CST::BackSlash(x) => Some((&x.children, &x.id)),
        _ => None,
    }
}

fn cst_leaf(n: &CST) -> Option<(Tok, &str)> {
    Some(match n {
        CST::AngleBracketOpen(l) => (Tok::Open(Kind::Angle), &l.id),
        CST::AngleBracketClose(l) => (Tok::Close(Kind::Angle), &l.id),
        CST::SquareBracketOpen(l) => (Tok::Open(Kind::Square), &l.id),
        CST::SquareBracketClose(l) => (Tok::Close(Kind::Square), &l.id),
        CST::CurlyBracketOpen(l) => (Tok::Open(Kind::Curly), &l.id),
        CST::CurlyBracketClose(l) => (Tok::Close(Kind::Curly), &l.id),
        CST::Module(l) => (Tok::Module(l.value.clone()?), &l.id),
        CST::Ident(l) => (Tok::Ident(l.value.clone()?), &l.id),
        CST::Text(l) => (Tok::Text(l.value.clone()?), &l.id),
        CST::Whitespace(l) => (Tok::Space, &l.id),
        CST::Newline(l) => (Tok::NewLine, &l.id),
        CST::Dot(l) => (Tok::Dot, &l.id),
        CST::Comma(l) => (Tok::Comma, &l.id),
        CST::EOF(l) => (Tok::Eof, &l.id),
        _ => return None,
    })
}

fn cst_name(n: &CST) -> &'static str {
    match n {
        CST::Document(_) => "Document",
        CST::Stmt(_) => "Stmt",
        CST::Expr(_) => "Expr",
        CST::Angle(_) => "Angle",
        CST::Curly(_) => "Curly",
        CST::Square(_) => "Square",
        CST::BackSlash(_) => "BackSlash",
        CST::Invalid(_) => "Invalid",
        _ => "leaf",
    }
}

/// Leaves read left to right, as the tokens they stand for.
fn leaves(n: &CST, out: &mut Vec<(Tok, Location)>) -> Check {
    if let CST::BackSlash(x) = n {
        let mut l = n.location();
        // the backslash itself
        l.end.line = l.start.line;
        l.end.character = l.start.character + 1;
        out.push((Tok::BackSlash, l));
        ensure!(x.children.len() <= 1, "a backslash node with {} children", x.children.len());
        for child in &x.children {
            match child {
                CST::Text(leaf) => {
                    let t = match leaf.value.as_deref() {
                        Some("[") => Tok::Open(Kind::Square),
                        Some("]") => Tok::Close(Kind::Square),
                        Some("{") => Tok::Open(Kind::Curly),
                        Some("}") => Tok::Close(Kind::Curly),
                        Some("<") => Tok::Open(Kind::Angle),
                        Some(">") => Tok::Close(Kind::Angle),
                        Some(".") => Tok::Dot,
                        Some(",") => Tok::Comma,
                        Some("\\") => Tok::BackSlash,
                        other => return Err(format!("a backslash node owning {:?}", other)),
                    };
                    out.push((t, leaf.location.clone()));
                }
                other => return Err(format!("a backslash node owning a {}", cst_name(other))),
            }
        }
        return Ok(());
    }
    if let Some((children, _)) = cst_inner(n) {
        for child in children {
            leaves(child, out)?;
        }
        return Ok(());
    }
    match cst_leaf(n) {
        Some((t, _)) => out.push((t, n.location())),
        None => return Err(format!("the tree has a node {:?}", n)),
    }
    Ok(())
}

fn shape(n: &CST) -> Check {
    let children = match cst_inner(n) {
        Some((children, _)) => children,
        None => return Ok(()),
    };
    match n {
        CST::Document(_) => {
            ensure!(
                matches!(children.last(), Some(CST::EOF(_))),
                "the document does not end with the end of file"
            );
            let mut breaks = usize::MAX;
            for (i, child) in children.iter().enumerate() {
                match child {
                    CST::Newline(_) => breaks = breaks.saturating_add(1),
                    CST::Stmt(_) => {
                        ensure!(breaks >= 2, "statements separated by {} line breaks", breaks);
                        breaks = 0;
                    }
                    CST::EOF(_) if i == children.len() - 1 => (),
                    other => return Err(format!("a document containing {}", cst_name(other))),
                }
            }
        }
        CST::Stmt(_) => {
            for (i, child) in children.iter().enumerate() {
                let ok = match child {
                    CST::Newline(_) => i % 2 == 1,
                    CST::Expr(_)
                    | CST::AngleBracketClose(_)
                    | CST::CurlyBracketClose(_)
                    | CST::SquareBracketClose(_) => i % 2 == 0,
                    _ => false,
                };
                ensure!(ok, "child {} of a statement is {:?}", i, child);
            }
            ensure!(children.len() % 2 == 1, "a statement ends with a line break or is empty");
        }
        CST::Expr(_) => {
            ensure!(!children.is_empty(), "an empty expression");
            for child in children {
                let ok = matches!(
                    child,
                    CST::BackSlash(_)
                        | CST::Module(_)
                        | CST::Ident(_)
                        | CST::Angle(_)
                        | CST::Curly(_)
                        | CST::Square(_)
                        | CST::Dot(_)
                        | CST::Comma(_)
                        | CST::Whitespace(_)
                        | CST::Text(_)
                );
                ensure!(ok, "an expression contains {:?}", child);
            }
        }
        CST::Angle(_) | CST::Curly(_) | CST::Square(_) => {
            let kind = match n {
                CST::Angle(_) => Kind::Angle,
                CST::Curly(_) => Kind::Curly,
                _ => Kind::Square,
            };
            for (i, child) in children.iter().enumerate() {
                let ok = match cst_leaf(child) {
                    Some((Tok::Open(k), _)) => i == 0 && k == kind,
                    Some((Tok::Close(k), _)) => i == children.len() - 1 && i > 0 && k == kind,
                    Some((Tok::NewLine, _)) => i > 0,
                    Some(_) => false,
                    None => i > 0 && matches!(child, CST::Expr(_)),
                };
                ensure!(ok, "child {} of a {} node is {:?}", i, cst_name(n), child);
            }
            ensure!(!children.is_empty(), "a {} node without its bracket", cst_name(n));
        }
        _ => (),
    }
    for child in children {
        shape(child)?;
    }
    Ok(())
}

pub fn c04(c: &mut Case) -> Check {
    let (text, lines) = if c.r.chance(50) {
        let (_, p) = doc::well_formed(&mut c.r);
        c.input(&p.text);
        ensure!(form(&p.text) == Form::Well, "!harness: the recogniser rejects a document");
        (p.text, Some(p.lines))
    } else if c.r.chance(50) {
        (near_text(c), None)
    } else {
        (some_text(c, 60), None)
    };
    let well = form(&text) == Form::Well;
    let tokens = tokenize(&text)?;
    let cst = match brack_parser::parse::parse(&tokens) {
        Ok(cst) => cst,
        Err(e) => {
            ensure!(!well, "a well-formed document does not parse: {:#}", e);
            c.count("unparsable documents", 1);
            return Ok(());
        }
    };
    c.count(if well { "well-formed documents" } else { "arbitrary documents that parse" }, 1);
    c.nontrivial(interesting(&text), fnv(text.as_bytes()));
    let mut got = vec![];
    leaves(&cst, &mut got)?;
    let want: Vec<(Tok, Location)> =
        tokens.iter().filter_map(|t| tok(t).map(|k| (k, t.get_location()))).collect();
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(g == w, "leaf {} is {:?}, token {} is {:?}", i, g, i, w);
    }
    ensure!(got.len() == want.len(), "{} leaves for {} tokens", got.len(), want.len());
    shape(&cst)?;
    c.count("leaves", got.len());
    if let Some(lines) = lines {
        let mut found = vec![];
        if let CST::Document(d) = &cst {
            for child in &d.children {
                if let CST::Stmt(s) = child {
                    found.push(s.children.iter().filter(|x| matches!(x, CST::Expr(_))).count());
                }
            }
        }
        ensure!(found == lines, "statements with {:?} lines where {:?} were written", found, lines);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub struct View {
    pub shade: Shade,
    pub children: Vec<View>,
    pub from: (usize, usize),
    pub to: (usize, usize),
}

/// The AST with adjacent texts joined. Err for a node that has no place in a sound tree.
pub fn view(n: &AST) -> Result<View, String> {
    let (shade, children, l) = match n {
        AST::Document(x) => (Shade::Doc, Some(&x.children), &x.location),
        AST::Stmt(x) => (Shade::Stmt, Some(&x.children), &x.location),
        AST::Expr(x) => (Shade::Expr, Some(&x.children), &x.location),
        AST::Angle(x) => (Shade::Cmd(Kind::Angle), Some(&x.children), &x.location),
        AST::Curly(x) => (Shade::Cmd(Kind::Curly), Some(&x.children), &x.location),
        AST::Square(x) => (Shade::Cmd(Kind::Square), Some(&x.children), &x.location),
        AST::Module(x) => (Shade::Module(x.value.clone().ok_or("a module without a name")?), None, &x.location),
        AST::Ident(x) => (Shade::Ident(x.value.clone().ok_or("an identifier without a name")?), None, &x.location),
        AST::Text(x) => (Shade::Text(x.value.clone().ok_or("a text without a value")?), None, &x.location),
        AST::Invalid(_) => return Err("the tree contains an invalid node".into()),
        AST::Ignored(_) => return Err("the tree contains an ignored node".into()),
    };
    let mut out: Vec<View> = vec![];
    for child in children.into_iter().flatten() {
        let v = view(child)?;
        if let (Shade::Text(new), Some(View { shade: Shade::Text(old), to, .. })) = (&v.shade, out.last_mut()) {
            old.push_str(new);
            *to = v.to;
            continue;
        }
        out.push(v);
    }
    Ok(View { shade, children: out, from: start(l), to: end(l) })
}

fn show_view(v: &View, out: &mut String) {
    doc::show(&strip(v), out)
}
fn strip(v: &View) -> Node {
    Node { shade: v.shade.clone(), children: v.children.iter().map(strip).collect(), span: (0, 0), escape_first: false }
}

fn same(got: &View, want: &Node, path: &str) -> Check {
    ensure!(got.shade == want.shade, "at {}: {:?} where {:?} was written", path, got.shade, want.shade);
    for (i, (g, w)) in got.children.iter().zip(&want.children).enumerate() {
        same(g, w, &format!("{}/{}", path, i))?;
    }
    if got.children.len() != want.children.len() {
        let (mut a, mut b) = (String::new(), String::new());
        show_view(got, &mut a);
        doc::show(want, &mut b);
        return Err(format!(
            "at {}: {} children where {} were written: {} instead of {}",
            path,
            got.children.len(),
            want.children.len(),
            shorten(&a, 300),
            shorten(&b, 300)
        ));
    }
    Ok(())
}

pub fn front(text: &str) -> Result<(CST, AST, Vec<(String, Location)>), String> {
    let tokens = tokenize(text)?;
    let cst = brack_parser::parse::parse(&tokens).map_err(|e| format!("a well-formed document does not parse: {:#}", e))?;
    let (ast, errors) = brack_transformer::transform::transform(&cst);
    let errors = errors.iter().map(|e| (e.get_message(), e.get_location())).collect();
    Ok((cst, ast, errors))
}

/// A text nobody composed as a document which happens to be one, and what it says.
fn accidental(c: &mut Case) -> Option<(String, Node, usize)> {
    let text = if c.r.chance(70) { near_text(c) } else { some_text(c, 60) };
    if form(&text) != Form::Well {
        c.inputs.pop();
        return None;
    }
    let (node, commands) = tree(&text);
    Some((text, node, commands))
}

pub fn c05(c: &mut Case) -> Check {
    if c.r.chance(40) {
        if let Some((text, node, commands)) = accidental(c) {
            c.nontrivial(commands > 0, fnv(text.as_bytes()));
            let (_, ast, _) = front(&text)?;
            same(&view(&ast)?, &node, "document")?;
            c.count("documents found among arbitrary texts", 1);
            return Ok(());
        }
    }
    let (d, p) = doc::well_formed(&mut c.r);
    let (mut a, mut b) = (String::new(), String::new());
    doc::show(&p.tree, &mut a);
    doc::show(&tree(&p.text).0, &mut b);
    ensure!(a == b, "!harness: {} is read as {}", a, b);
    c.input(&p.text);
    c.nontrivial(p.commands > 0, fnv(p.text.as_bytes()));
    let (_, ast, _) = front(&p.text)?;
    same(&view(&ast)?, &p.tree, "document")?;
    c.count("commands", p.commands);
    // another layout of the same document
    if let Some(q) = doc::rewrite(&mut c.r, &d) {
        c.input(&q.text);
        c.nontrivial(q.commands > 0, fnv(q.text.as_bytes()));
        let (_, ast, _) = front(&q.text)?;
        same(&view(&ast)?, &q.tree, "document in another layout")?;
        c.count("second layouts", 1);
    }
    Ok(())
}

fn spans_cst(n: &CST, text: &str, map: &Map) -> Check {
    let l = n.location();
    ensure!(start(&l) <= end(&l), "a {} node ends before it starts: {:?}", cst_name(n), l);
    if let CST::BackSlash(x) = n {
        // the backslash, then the character it escapes
        if let Some(child) = x.children.last() {
            ensure!(end(&l) == end(&child.location()), "an escape spans {:?}, its character {:?}", l, child.location());
            ensure!(
                start(&child.location()) == (l.start.line, l.start.character + 1),
                "an escape spans {:?}, its character {:?}",
                l,
                child.location()
            );
        }
        ensure!(
            map.offset(l.start.line, l.start.character).map(|o| text[o..].starts_with('\\')) == Some(true),
            "there is no backslash at {:?}",
            l
        );
        return Ok(());
    }
    if let Some((children, _)) = cst_inner(n) {
        let mut at = None;
        for child in children {
            let k = child.location();
            if let Some(at) = at {
                ensure!(start(&k) >= at, "{:?} overlaps its left sibling, which ends at {:?}", child, at);
            }
            at = Some(end(&k));
            spans_cst(child, text, map)?;
        }
        if let (Some(a), Some(b)) = (children.first(), children.last()) {
            ensure!(
                start(&l) == start(&a.location()) && end(&l) == end(&b.location()),
                "a {} node spans {:?}, its children {:?}–{:?}",
                cst_name(n),
                l,
                start(&a.location()),
                end(&b.location())
            );
        }
        return Ok(());
    }
    if let CST::Newline(_) | CST::EOF(_) = n {
        return Ok(());
    }
    let (a, b) = (map.offset(l.start.line, l.start.character), map.offset(l.end.line, l.end.character));
    let source = match (a, b) {
        (Some(a), Some(b)) => &text[a..b],
        _ => return Err(format!("{:?} is outside of the document", n)),
    };
    let value = match cst_leaf(n) {
        Some((Tok::Text(s), _)) | Some((Tok::Module(s), _)) | Some((Tok::Ident(s), _)) => s,
        Some((Tok::Open(k), _)) => k.open().into(),
        Some((Tok::Close(k), _)) => k.close().into(),
        Some((Tok::Dot, _)) => ".".into(),
        Some((Tok::Comma, _)) => ",".into(),
        Some((Tok::Space, _)) => " ".into(),
        _ => return Err(format!("unexpected node {:?}", n)),
    };
    ensure!(source == value, "{:?} stands at {:?} of the source", n, source);
    Ok(())
}

fn spans_ast(got: &View, want: &Node, map: &Map, path: &str) -> Check {
    let from = map.at(want.span.0).ok_or("!harness: span")?;
    let to = map.at(want.span.1).ok_or("!harness: span")?;
    let late = want.escape_first && got.from == (from.0, from.1 + 1);
    ensure!(
        got.from == from || late,
        "{} ({:?}) starts at {:?}, its source at {:?}",
        path,
        got.shade,
        got.from,
        from
    );
    ensure!(got.to == to, "{} ({:?}) ends at {:?}, its source at {:?}", path, got.shade, got.to, to);
    for (i, (g, w)) in got.children.iter().zip(&want.children).enumerate() {
        spans_ast(g, w, map, &format!("{}/{}", path, i))?;
    }
    Ok(())
}

pub fn c06(c: &mut Case) -> Check {
    if c.r.chance(40) {
        if let Some((text, node, commands)) = accidental(c) {
            c.nontrivial(commands > 0, fnv(text.as_bytes()));
            let (cst, ast, _) = front(&text)?;
            let map = Map::new(&text);
            spans_cst(&cst, &text, &map)?;
            let v = view(&ast)?;
            if same(&v, &node, "document").is_ok() {
                spans_ast(&v, &node, &map, "document")?;
                c.count("documents found among arbitrary texts", 1);
            }
            return Ok(());
        }
    }
    let (_, p) = doc::well_formed(&mut c.r);
    c.input(&p.text);
    c.nontrivial(p.commands > 0, fnv(p.text.as_bytes()));
    let (cst, ast, _) = front(&p.text)?;
    let map = Map::new(&p.text);
    spans_cst(&cst, &p.text, &map)?;
    let v = view(&ast)?;
    // the structure itself is C05's concern
    if same(&v, &p.tree, "document").is_ok() {
        spans_ast(&v, &p.tree, &map, "document")?;
        c.count("abstract trees", 1);
    }
    c.count("line breaks", map.end().0);
    Ok(())
}

fn keywords(f: Fault) -> &'static [&'static str] {
    match f {
        Fault::Unclosed => &["not closed"],
        Fault::NoModule => &["module"],
        Fault::NoDot => &["module", "dot"],
        Fault::NoIdent => &["identifier"],
        Fault::MacroAlone => &["dot", "identifier"],
        Fault::NoHead => &["module"],
        Fault::StrayDot => &["dot"],
        Fault::EmptyArg | Fault::LeadingComma | Fault::TrailingComma => &["comma"],
        Fault::BadEscape => &["ackslash"],
        Fault::StrayCloser => &["not opened"],
    }
}

fn inside(map: &Map, errors: &[(String, Location)]) -> Check {
    for (message, l) in errors {
        ensure!(start(l) <= end(l), "{:?} at {:?}: ends before it starts", message, l);
        ensure!(map.contains(&l.start) && map.contains(&l.end), "{:?} at {:?}: outside of the document", message, l);
    }
    Ok(())
}

/// A command with at most one fault of its own and faulty commands in its arguments.
fn faulty_command(r: &mut Rng, text: &mut String, depth: usize, faults: &mut Vec<(Fault, usize)>) {
    let (open, close) = *r.pick(&[("[", "]"), ("{", "}"), ("<", ">")]);
    let inner = |r: &mut Rng, text: &mut String, faults: &mut Vec<(Fault, usize)>| {
        if depth > 0 && r.chance(60) {
            faulty_command(r, text, depth - 1, faults);
        }
        text.push_str(*r.pick(&["x", "日本", "y z", "\\.", " \n w"]));
    };
    text.push_str(open);
    let own = *r.pick(&[
        None,
        None,
        Some(Fault::NoModule),
        Some(Fault::NoDot),
        Some(Fault::NoIdent),
        Some(Fault::StrayDot),
        Some(Fault::StrayDot),
        Some(Fault::EmptyArg),
        Some(Fault::LeadingComma),
        Some(Fault::TrailingComma),
        Some(Fault::BadEscape),
    ]);
    let name = *r.pick(&["a", "std", "数学"]);
    match own {
        Some(Fault::NoModule) => {
            faults.push((Fault::NoModule, text.len()));
            text.push_str(".b ");
        }
        Some(Fault::NoDot) => {
            faults.push((Fault::NoDot, text.len()));
            text.push_str("b ");
        }
        Some(Fault::NoIdent) => {
            text.push_str(name);
            text.push('.');
            faults.push((Fault::NoIdent, text.len()));
            text.push(' ');
        }
        _ => {
            text.push_str(name);
            text.push_str(".b ");
        }
    }
    if own == Some(Fault::LeadingComma) {
        faults.push((Fault::LeadingComma, text.len()));
        text.push(',');
    }
    inner(r, text, faults);
    if r.chance(50) {
        text.push(',');
        inner(r, text, faults);
    }
    match own {
        Some(Fault::StrayDot) => {
            faults.push((Fault::StrayDot, text.len()));
            text.push('.');
        }
        Some(Fault::EmptyArg) => {
            text.push(',');
            faults.push((Fault::EmptyArg, text.len()));
            text.push(',');
        }
        Some(Fault::BadEscape) => {
            faults.push((Fault::BadEscape, text.len()));
            text.push_str("\\q");
        }
        _ => {}
    }
    inner(r, text, faults);
    if own == Some(Fault::TrailingComma) {
        faults.push((Fault::TrailingComma, text.len()));
        text.push(',');
    }
    text.push_str(close);
}

pub fn c07(c: &mut Case) -> Check {
    match c.r.below(16) {
        14..=15 => {
            // several faults, in commands side by side and in one another
            let (mut text, mut faults) = (String::new(), vec![]);
            for _ in 0..c.r.range(1, 4) {
                let depth = c.r.below(4);
                faulty_command(&mut c.r, &mut text, depth, &mut faults);
                text.push_str(*c.r.pick(&["", " ", "text", "\n", "\n\n", "\r\n\r\n"]));
            }
            c.input(&text);
            c.nontrivial(faults.len() > 1, fnv(text.as_bytes()));
            let (_, _, errors) = front(&text)?;
            let map = Map::new(&text);
            inside(&map, &errors)?;
            ensure!(faults.is_empty() == errors.is_empty(), "faults {:?}; diagnostics: {:?}", faults, errors);
            for (fault, at) in &faults {
                let at = map.at(*at).ok_or("!harness: fault position")?;
                let named = errors.iter().any(|(m, l)| {
                    let m = m.to_lowercase();
                    keywords(*fault).iter().any(|k| m.contains(k)) && start(l) <= at && at <= end(l)
                });
                ensure!(named, "{:?} at {:?} is not named there; diagnostics: {:?}", fault, at, errors);
            }
            c.count("documents with several faults", (faults.len() > 1) as usize);
            c.count("faults among several", faults.len());
        }
        10..=13 => {
            let text = near_text(c);
            let tokens = tokenize(&text)?;
            let want = form(&text);
            c.nontrivial(want != Form::Unsettled, fnv(text.as_bytes()));
            let Ok(cst) = brack_parser::parse::parse(&tokens) else {
                ensure!(want != Form::Well, "a well-formed document does not parse");
                c.count("documents with faults that do not parse", 1);
                return Ok(());
            };
            let (_, errors) = brack_transformer::transform::transform(&cst);
            let errors: Vec<_> = errors.iter().map(|e| (e.get_message(), e.get_location())).collect();
            inside(&Map::new(&text), &errors)?;
            match want {
                Form::Well => {
                    c.count("recognised as well-formed", 1);
                    ensure!(errors.is_empty(), "a well-formed document is diagnosed: {:?}", errors);
                }
                Form::Ill => {
                    c.count("recognised as faulty", 1);
                    ensure!(!errors.is_empty(), "a document that is not well-formed has no diagnostics");
                }
                Form::Unsettled => c.count("not settled by the language", 1),
            }
        }
        0..=1 => {
            let (_, p) = doc::well_formed(&mut c.r);
            c.input(&p.text);
            c.nontrivial(p.commands > 0, fnv(p.text.as_bytes()));
            let (_, _, errors) = front(&p.text)?;
            ensure!(errors.is_empty(), "a well-formed document is diagnosed: {:?}", errors);
            c.count("well-formed documents", 1);
        }
        2 => {
            let text = some_text(c, 60);
            let tokens = tokenize(&text)?;
            if let Ok(cst) = brack_parser::parse::parse(&tokens) {
                let (_, errors) = brack_transformer::transform::transform(&cst);
                let errors: Vec<_> = errors.iter().map(|e| (e.get_message(), e.get_location())).collect();
                c.nontrivial(!errors.is_empty(), fnv(text.as_bytes()));
                c.count("arbitrary documents that parse", 1);
                inside(&Map::new(&text), &errors)?;
            }
        }
        _ => {
            let fault = *c.r.pick(doc::FAULTS);
            let p = loop {
                let mut shape = doc::Shape::random(&mut c.r);
                shape.stmts = shape.stmts.max(1);
                let d = doc::document(&mut c.r, &shape);
                let nth = c.r.below(4);
                let layout = c.r.chance(70);
                if let Some(p) = doc::print(&mut c.r, &d, layout, Some((fault, nth))) {
                    break p;
                }
            };
            c.input(&p.text);
            let tokens = tokenize(&p.text)?;
            let cst = match brack_parser::parse::parse(&tokens) {
                Ok(cst) => cst,
                Err(e) => return Err(format!("{:?}: the document does not parse at all: {:#}", fault, e)),
            };
            c.nontrivial(true, fnv(p.text.as_bytes()));
            c.count(&format!("{:?}", fault), 1);
            let (_, errors) = brack_transformer::transform::transform(&cst);
            let errors: Vec<_> = errors.iter().map(|e| (e.get_message(), e.get_location())).collect();
            let map = Map::new(&p.text);
            let at = map.at(p.fault.unwrap()).ok_or("!harness: fault position")?;
            inside(&map, &errors)?;
            let named = errors.iter().any(|(m, l)| {
                let m = m.to_lowercase();
                keywords(fault).iter().any(|k| m.contains(k)) && start(l) <= at && at <= end(l)
            });
            ensure!(named, "{:?} at {:?} is not named there; diagnostics: {:?}", fault, at, errors);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn ids_cst<'a>(n: &'a CST, out: &mut Vec<&'a str>) {
    if let Some((children, id)) = cst_inner(n) {
        out.push(id);
        for child in children {
            ids_cst(child, out);
        }
    } else if let Some((_, id)) = cst_leaf(n) {
        out.push(id);
    } else if let CST::Invalid(l) = n {
        out.push(&l.id);
    }
}

fn nodes_ast<'a>(n: &'a AST, out: &mut Vec<&'a AST>) {
    out.push(n);
    match n {
        AST::Document(x) | AST::Stmt(x) | AST::Expr(x) | AST::Angle(x) | AST::Square(x) | AST::Curly(x) => {
            for child in &x.children {
                nodes_ast(child, out);
            }
        }
        _ => (),
    }
}

pub fn c25(c: &mut Case) -> Check {
    // ids seen so far in this process, over all trees
    let well = c.r.chance(70);
    let text = if well {
        let (_, p) = doc::well_formed(&mut c.r);
        c.input(&p.text);
        p.text
    } else {
        some_text(c, 60)
    };
    let run = |text: &str| -> Option<(CST, AST)> {
        let tokens = brack_tokenizer::tokenize::tokenize_str(text).ok()?;
        let cst = brack_parser::parse::parse(&tokens).ok()?;
        let (ast, _) = brack_transformer::transform::transform(&cst);
        Some((cst, ast))
    };
    // the same document twice, sometimes on several threads at once
    let mut trees = vec![];
    if c.index % 8 == 0 {
        let handles: Vec<_> = (0..4)
            .map(|_| {
                let text = text.clone();
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        let tokens = brack_tokenizer::tokenize::tokenize_str(&text).ok()?;
                        let cst = brack_parser::parse::parse(&tokens).ok()?;
                        let (ast, _) = brack_transformer::transform::transform(&cst);
                        Some((cst, ast))
                    })
                    .expect("thread")
            })
            .collect();
        for h in handles {
            trees.extend(h.join().map_err(|_| "a thread panicked".to_string())?);
        }
        c.count("concurrent rounds", 1);
    } else {
        trees.extend(run(&text));
        trees.extend(run(&text));
    }
    let mut nodes_seen = 0;
    for (cst, ast) in &trees {
        let mut ids = vec![];
        ids_cst(cst, &mut ids);
        for id in &ids {
            ensure!(!id.is_empty(), "a concrete node without an id");
            ensure!(c.seen_cst.insert(fnv(id.as_bytes())), "two concrete nodes have the id {:?}", id);
        }
        nodes_seen += ids.len();
        let mut nodes = vec![];
        nodes_ast(ast, &mut nodes);
        let mut own = HashSet::new();
        for n in &nodes {
            ensure!(own.insert(n.id()), "two nodes of one abstract tree have the id {:?}", n.id());
            ensure!(c.seen_ast.insert(fnv(n.id().as_bytes())), "two abstract nodes have the id {:?}", n.id());
            let found = ast.get(&n.id());
            ensure!(
                found.map(|f| std::ptr::eq(f, *n)) == Some(true),
                "looking up the id of {:?} finds {:?}",
                n,
                found
            );
        }
        nodes_seen += nodes.len();
        for unknown in ["", "x", "00000000-0000-0000-0000-000000000000"] {
            ensure!(ast.get(unknown).is_none(), "the unknown id {:?} finds {:?}", unknown, ast.get(unknown));
        }
        // an id of another tree
        for (_, other) in &trees {
            if !std::ptr::eq(other, ast) {
                ensure!(ast.get(&other.id()).is_none(), "the id of another tree finds a node");
            }
        }
        // part of an id is not an id
        let id = ast.id();
        if id.len() > 1 && id.is_char_boundary(id.len() - 1) {
            ensure!(ast.get(&id[..id.len() - 1]).is_none(), "part of an id finds a node");
        }
    }
    c.nontrivial(nodes_seen > 8, fnv(text.as_bytes()));
    c.count("nodes", nodes_seen);
    Ok(())
}
