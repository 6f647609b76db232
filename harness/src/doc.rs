//! Well-formed documents: an abstract document is made first, then written down with a random
//! layout. What the tokens, the trees and the positions have to be follows from the abstract
//! document and from what was written, not from running the code under test.
use crate::rng::Rng;
use crate::text::{Map, ODD, PLAIN};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Angle,
    Curly,
    Square,
}

impl Kind {
    pub fn open(self) -> &'static str {
        match self {
            Kind::Angle => "<",
            Kind::Curly => "{",
            Kind::Square => "[",
        }
    }
    pub fn close(self) -> &'static str {
        match self {
            Kind::Angle => ">",
            Kind::Curly => "}",
            Kind::Square => "]",
        }
    }
}

#[derive(Clone, Debug)]
pub enum Head {
    Name(String),
    Macro(Box<Cmd>),
}

#[derive(Clone, Debug)]
pub struct Cmd {
    pub kind: Kind,
    pub module: Head,
    pub ident: Head,
    pub args: Vec<Vec<Item>>,
}

#[derive(Clone, Debug)]
pub enum Item {
    /// graphemes
    Text(Vec<String>),
    Cmd(Box<Cmd>),
}

pub type Line = Vec<Item>;
pub type Stmt = Vec<Line>;

#[derive(Clone, Debug)]
pub struct Doc {
    pub stmts: Vec<Stmt>,
}

/// What documents look like.
#[derive(Clone)]
pub struct Shape {
    pub depth: usize,
    pub stmts: usize,
    pub odd: bool,
    pub many: usize, // 1: statements, 2: lines, 3: arguments, 4: items, 5: levels of nesting
    pub favourite: Option<Kind>, // most commands are of this kind
    pub macros: usize,      // percent of commands which are macros
    pub macro_heads: usize, // percent of head parts which are macros
    pub modules: Vec<String>,
    pub idents: Vec<String>,
    pub special_text: usize, // percent of text graphemes which are special characters
    pub budget: std::cell::Cell<usize>, // commands still allowed to nest
}

impl Shape {
    pub fn random(r: &mut Rng) -> Shape {
        let odd = r.chance(60);
        // where a limit could hide: once in a while a lot of something
        let many = if r.chance(5) { r.range(1, 5) } else { 0 };
        let mut modules = vec![];
        let mut idents = vec![];
        for _ in 0..r.range(1, 5) {
            modules.push(if r.chance(2) { long_name(r, odd) } else { name(r, odd) });
        }
        for _ in 0..r.range(1, 8) {
            idents.push(if r.chance(2) { long_name(r, odd) } else { name(r, odd) });
        }
        Shape {
            depth: if many == 5 { r.range(8, 60) } else { *r.pick(&[0usize, 1, 1, 2, 2, 3, 3, 4, 6]) },
            stmts: if many == 1 { r.range(20, 120) } else if many == 5 { r.range(1, 2) } else { *r.pick(&[0usize, 1, 1, 1, 2, 2, 3, 5]) },
            many,
            favourite: if r.chance(if many == 5 { 70 } else { 10 }) { Some(*r.pick(&[Kind::Angle, Kind::Curly, Kind::Square])) } else { None },
            odd,
            macros: if r.chance(50) { 0 } else { r.range(5, 50) },
            macro_heads: if r.chance(60) { 0 } else { r.range(5, 40) },
            modules,
            idents,
            special_text: r.range(0, 30),
            budget: std::cell::Cell::new(if many == 5 { r.range(20, 90) } else if r.chance(4) { 80 } else { r.range(1, 14) }),
        }
    }
}

fn long_name(r: &mut Rng, odd: bool) -> String {
    (0..r.range(8, 80)).map(|_| name(r, odd)).collect()
}

pub fn name(r: &mut Rng, odd: bool) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 4) {
        if odd && r.chance(30) {
            s.push_str(r.pick(ODD));
        } else {
            s.push_str(r.pick(PLAIN));
        }
    }
    s
}

fn text(r: &mut Rng, shape: &Shape, spaces: bool) -> Vec<String> {
    let n = if r.chance(1) {
        // where a limit could hide
        if r.chance(1) && r.chance(30) { r.range(1000, 5000) } else { r.range(20, 200) }
    } else {
        r.range(1, 8)
    };
    let mut out = vec![];
    for _ in 0..n {
        let g = if r.chance(shape.special_text) {
            r.pick(&["[", "]", "{", "}", "<", ">", ".", ",", "\\"]).to_string()
        } else if spaces && r.chance(20) {
            " ".to_string()
        } else if shape.odd && r.chance(20) {
            r.pick(ODD).to_string()
        } else {
            r.pick(PLAIN).to_string()
        };
        out.push(g);
    }
    out
}

pub fn command(r: &mut Rng, shape: &Shape, depth: usize, kind: Option<Kind>) -> Cmd {
    let kind = kind.unwrap_or_else(|| {
        let favourite = shape.favourite.filter(|k| *k != Kind::Angle || shape.macros > 0);
        if let (Some(kind), true) = (favourite, r.chance(80)) {
            kind
        } else if r.chance(shape.macros) {
            Kind::Angle
        } else if r.chance(50) {
            Kind::Square
        } else {
            Kind::Curly
        }
    });
    shape.budget.set(shape.budget.get().saturating_sub(1));
    let head = |r: &mut Rng, names: &[String]| {
        if depth > 0 && shape.budget.get() > 0 && r.chance(shape.macro_heads) {
            Head::Macro(Box::new(command(r, shape, depth - 1, Some(Kind::Angle))))
        } else {
            Head::Name(r.pick(names).clone())
        }
    };
    let module = head(r, &shape.modules);
    let ident = head(r, &shape.idents);
    let mut args = vec![];
    let count = if shape.many == 3 && r.chance(30) { r.range(8, 70) } else { *r.pick(&[0usize, 1, 1, 1, 2, 2, 3, 4]) };
    for _ in 0..count {
        let mut arg = vec![];
        let n = if shape.many == 4 && r.chance(20) { r.range(8, 40) } else { *r.pick(&[1usize, 1, 1, 2, 2, 3]) };
        for i in 0..n {
            if depth > 0 && shape.budget.get() > 0 && r.chance(if shape.many == 5 { 70 } else { 45 }) {
                arg.push(Item::Cmd(Box::new(command(r, shape, depth - 1, None))));
            } else {
                let mut t = text(r, shape, true);
                // the edges of an argument carry no spaces
                if i == 0 {
                    while t.first().map(|g| g == " ").unwrap_or(false) {
                        t.remove(0);
                    }
                }
                if i == n - 1 {
                    while t.last().map(|g| g == " ").unwrap_or(false) {
                        t.pop();
                    }
                }
                if !t.is_empty() {
                    arg.push(Item::Text(t));
                }
            }
        }
        trim(&mut arg);
        if arg.is_empty() {
            arg.push(Item::Text(vec!["x".into()]));
        }
        args.push(arg);
    }
    Cmd { kind, module, ident, args }
}

/// Drops leading and trailing spaces of an argument.
fn trim(arg: &mut Vec<Item>) {
    loop {
        match arg.first_mut() {
            Some(Item::Text(t)) if t.is_empty() => {
                arg.remove(0);
            }
            Some(Item::Text(t)) if t[0] == " " => {
                t.remove(0);
            }
            _ => break,
        }
    }
    loop {
        match arg.last_mut() {
            Some(Item::Text(t)) if t.is_empty() => {
                arg.pop();
            }
            Some(Item::Text(t)) if t[t.len() - 1] == " " => {
                t.pop();
            }
            _ => break,
        }
    }
}

pub fn document(r: &mut Rng, shape: &Shape) -> Doc {
    let mut stmts = vec![];
    for _ in 0..shape.stmts {
        let mut stmt = vec![];
        let lines = if shape.many == 2 { r.range(10, 80) } else { *r.pick(&[1usize, 1, 1, 2, 3]) };
        for _ in 0..lines {
            let mut line = vec![];
            let items = if shape.many == 4 && r.chance(20) { r.range(8, 60) } else { *r.pick(&[1usize, 1, 2, 3, 4]) };
            for _ in 0..items {
                if r.chance(50) {
                    line.push(Item::Cmd(Box::new(command(r, shape, shape.depth, None))));
                } else {
                    line.push(Item::Text(text(r, shape, true)));
                }
            }
            stmt.push(line);
        }
        stmts.push(stmt);
    }
    Doc { stmts }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tok {
    Text(String),
    Module(String),
    Ident(String),
    NewLine,
    Space,
    Dot,
    BackSlash,
    Open(Kind),
    Close(Kind),
    Comma,
    Eof,
}

/// Expected syntax tree, with the byte range of the source it stands for.
#[derive(Clone, Debug, PartialEq)]
pub enum Shade {
    Doc,
    Stmt,
    Expr,
    Cmd(Kind),
    Module(String),
    Ident(String),
    Text(String),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub shade: Shade,
    pub children: Vec<Node>,
    pub span: (usize, usize),
    /// the source of the node starts with an escape: a start one character later is fine too
    pub escape_first: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fault {
    Unclosed,
    NoModule,
    NoDot,
    NoIdent,
    /// nothing but a macro in the head
    MacroAlone,
    /// nothing in the head
    NoHead,
    StrayDot,
    EmptyArg,
    LeadingComma,
    TrailingComma,
    BadEscape,
    StrayCloser,
}

pub const FAULTS: &[Fault] = &[
    Fault::Unclosed,
    Fault::NoModule,
    Fault::NoDot,
    Fault::NoIdent,
    Fault::MacroAlone,
    Fault::NoHead,
    Fault::StrayDot,
    Fault::EmptyArg,
    Fault::LeadingComma,
    Fault::TrailingComma,
    Fault::BadEscape,
    Fault::StrayCloser,
];

pub struct Printed {
    pub text: String,
    pub toks: Vec<Tok>,
    pub tree: Node,
    /// number of lines of each statement
    pub lines: Vec<usize>,
    /// byte offset of the fault put in
    pub fault: Option<usize>,
    pub commands: usize,
}

pub struct Printer<'a> {
    r: &'a mut Rng,
    text: String,
    toks: Vec<Tok>,
    cuts: Vec<usize>,
    layout: bool,
    crlf: usize,
    fault: Option<(Fault, usize)>, // kind, at the how-manieth opportunity
    fault_at: Option<usize>,
    commands: usize,
}

fn kind_of(g: &str) -> Option<Tok> {
    Some(match g {
        "[" => Tok::Open(Kind::Square),
        "]" => Tok::Close(Kind::Square),
        "{" => Tok::Open(Kind::Curly),
        "}" => Tok::Close(Kind::Curly),
        "<" => Tok::Open(Kind::Angle),
        ">" => Tok::Close(Kind::Angle),
        "." => Tok::Dot,
        "," => Tok::Comma,
        "\\" => Tok::BackSlash,
        _ => return None,
    })
}

impl<'a> Printer<'a> {
    fn put(&mut self, s: &str, tok: Tok) {
        self.cuts.push(self.text.len());
        self.text.push_str(s);
        self.cuts.push(self.text.len());
        if let (Tok::Text(new), Some(Tok::Text(old))) = (&tok, self.toks.last_mut()) {
            old.push_str(new);
            return;
        }
        self.toks.push(tok);
    }
    fn newline(&mut self) {
        let s = if self.r.chance(self.crlf) { "\r\n" } else { "\n" };
        self.put(s, Tok::NewLine);
    }
    /// A chance to put the fault of this kind; remembers where.
    fn strike(&mut self, f: Fault) -> bool {
        match &mut self.fault {
            Some((g, n)) if *g == f => {
                if *n == 0 {
                    self.fault = None;
                    self.fault_at = Some(self.text.len());
                    true
                } else {
                    *n -= 1;
                    false
                }
            }
            _ => false,
        }
    }
    /// Spaces and line breaks which mean nothing.
    fn blanks(&mut self) {
        if !self.layout || self.r.chance(50) {
            return;
        }
        for _ in 0..run(self.r, 1, 3) {
            if self.r.chance(60) {
                self.put(" ", Tok::Space);
            } else {
                self.newline();
            }
        }
    }
    fn bad_escape(&mut self, nested: bool) {
        if self.strike(Fault::BadEscape) {
            self.put("\\", Tok::BackSlash);
            match self.r.below(3) {
                0 => {
                    let s = if self.r.chance(50) { "q" } else { "日" };
                    self.put(s, Tok::Text("?".into()))
                }
                1 if nested => self.put(" ", Tok::Space),
                1 => self.put(" ", Tok::Text(" ".into())),
                _ => self.newline(),
            }
            // something must follow a line break at top level
            self.put("x", Tok::Text("x".into()));
        }
    }
    fn items(&mut self, items: &[Item], nested: bool) -> Vec<Node> {
        let mut nodes: Vec<Node> = vec![];
        for item in items {
            self.bad_escape(nested);
            if nested && self.strike(Fault::StrayDot) {
                self.put(".", Tok::Dot);
            }
            match item {
                Item::Text(gs) => {
                    for g in gs {
                        let at = self.text.len();
                        let mut escape = false;
                        if let Some(tok) = kind_of(g) {
                            if nested || !matches!(tok, Tok::Dot | Tok::Comma) || self.r.chance(50) {
                                escape = true;
                                self.put("\\", Tok::BackSlash);
                                self.put(g, tok);
                            } else {
                                self.put(g, Tok::Text(g.clone()));
                            }
                        } else if g == " " && nested {
                            self.put(g, Tok::Space);
                        } else {
                            self.put(g, Tok::Text(g.clone()));
                        }
                        let end = self.text.len();
                        match nodes.last_mut() {
                            Some(Node { shade: Shade::Text(t), span, .. }) => {
                                t.push_str(g);
                                span.1 = end;
                            }
                            _ => nodes.push(Node {
                                shade: Shade::Text(g.clone()),
                                children: vec![],
                                span: (at, end),
                                escape_first: escape,
                            }),
                        }
                        if nested && self.layout && self.r.chance(4) {
                            self.newline();
                        }
                    }
                }
                Item::Cmd(c) => {
                    let node = self.command(c);
                    nodes.push(node);
                    if nested && self.layout && self.r.chance(8) {
                        self.newline();
                    }
                }
            }
        }
        nodes
    }
    fn head(&mut self, head: &Head, module: bool) -> Node {
        match head {
            Head::Name(s) => {
                let at = self.text.len();
                let tok = if module { Tok::Module(s.clone()) } else { Tok::Ident(s.clone()) };
                self.put(s, tok);
                Node {
                    shade: if module { Shade::Module(s.clone()) } else { Shade::Ident(s.clone()) },
                    children: vec![],
                    span: (at, self.text.len()),
                    escape_first: false,
                }
            }
            Head::Macro(c) => self.command(c),
        }
    }
    fn command(&mut self, c: &Cmd) -> Node {
        self.commands += 1;
        let start = self.text.len();
        let unclosed = self.strike(Fault::Unclosed);
        self.put(c.kind.open(), Tok::Open(c.kind));
        let mut children = vec![];
        let plain = |h: &Head| matches!(h, Head::Name(_));
        if !plain(&c.module) && self.strike(Fault::MacroAlone) {
            let module = self.head(&c.module, true);
            children.push(module);
            self.fault_at = Some(self.text.len());
        } else if self.strike(Fault::NoHead) {
        } else if (plain(&c.module) && plain(&c.ident) || !plain(&c.module)) && self.strike(Fault::NoDot) {
            if !plain(&c.module) {
                let module = self.head(&c.module, true);
                children.push(module);
                self.fault_at = Some(self.text.len());
            }
            let ident = self.head(&c.ident, false);
            children.push(ident);
        } else {
            if !self.strike(Fault::NoModule) {
                let module = self.head(&c.module, true);
                children.push(module);
            }
            self.put(".", Tok::Dot);
            if !self.strike(Fault::NoIdent) {
                let ident = self.head(&c.ident, false);
                children.push(ident);
            }
        }
        if !c.args.is_empty() {
            self.put(" ", Tok::Space);
            self.blanks();
            if self.strike(Fault::LeadingComma) {
                self.put(",", Tok::Comma);
            }
            for (i, arg) in c.args.iter().enumerate() {
                if i > 0 {
                    self.blanks();
                    self.put(",", Tok::Comma);
                    self.blanks();
                    if self.strike(Fault::EmptyArg) {
                        self.put(",", Tok::Comma);
                    }
                }
                let first = self.text.len();
                let nodes = self.items(arg, true);
                let span = match (nodes.first(), nodes.last()) {
                    (Some(a), Some(b)) => (a.span.0, b.span.1),
                    _ => (first, first),
                };
                let escape_first = nodes.first().map(|n| n.escape_first).unwrap_or(false);
                children.push(Node { shade: Shade::Expr, children: nodes, span, escape_first });
            }
            if self.strike(Fault::TrailingComma) {
                self.put(",", Tok::Comma);
            }
            self.blanks();
        } else if self.layout && self.r.chance(20) {
            self.put(" ", Tok::Space);
            self.blanks();
        }
        if !unclosed {
            self.put(c.kind.close(), Tok::Close(c.kind));
        }
        Node { shade: Shade::Cmd(c.kind), children, span: (start, self.text.len()), escape_first: false }
    }
}

/// Writes a document down. With `layout` off, only what is necessary is written.
/// A number of things in a row: once in a while many, where a limit could hide.
fn run(r: &mut Rng, least: usize, most: usize) -> usize {
    if r.chance(98) {
        r.range(least, most)
    } else if r.chance(90) {
        r.range(most, 40)
    } else {
        *r.pick(&[65usize, 100, 130, 260, 520, 1030])
    }
}

/// None when the pieces written do not keep to themselves (they would merge into one
/// user-perceived character with their neighbour), or when the fault found no place.
pub fn print(r: &mut Rng, doc: &Doc, layout: bool, fault: Option<(Fault, usize)>) -> Option<Printed> {
    let crlf = *r.pick(&[0usize, 0, 100, 30]);
    let mut p = Printer {
        r,
        text: String::new(),
        toks: vec![],
        cuts: vec![],
        layout,
        crlf,
        fault,
        fault_at: None,
        commands: 0,
    };
    if layout && p.r.chance(25) {
        for _ in 0..run(p.r, 1, 3) {
            p.newline();
        }
    }
    let mut stmts = vec![];
    for (i, stmt) in doc.stmts.iter().enumerate() {
        if i > 0 {
            let n = if layout { run(p.r, 2, 4) } else { 2 };
            for _ in 0..n {
                p.newline();
            }
        }
        let mut lines = vec![];
        for (j, line) in stmt.iter().enumerate() {
            if j > 0 {
                p.newline();
            }
            if p.strike(Fault::StrayCloser) {
                let k = *p.r.pick(&[Kind::Angle, Kind::Curly, Kind::Square]);
                p.put(k.close(), Tok::Close(k));
                p.newline();
            }
            let at = p.text.len();
            let children = p.items(line, false);
            let escape_first = children.first().map(|n| n.escape_first).unwrap_or(false);
            lines.push(Node { shade: Shade::Expr, children, span: (at, p.text.len()), escape_first });
        }
        let span = (lines[0].span.0, lines[lines.len() - 1].span.1);
        // line and statement nodes start with their first character, the backslash of an escape included
        stmts.push(Node { shade: Shade::Stmt, children: lines, span, escape_first: false });
    }
    if layout && p.r.chance(40) {
        for _ in 0..run(p.r, 1, 3) {
            p.newline();
        }
    }
    p.toks.push(Tok::Eof);
    let (text, toks, cuts, fault_at, commands) = (p.text, p.toks, p.cuts, p.fault_at, p.commands);
    if fault.is_some() && fault_at.is_none() {
        return None;
    }
    let map = Map::new(&text);
    if !cuts.iter().all(|c| map.is_boundary(*c)) {
        return None;
    }
    let lines = stmts.iter().map(|s| s.children.len()).collect();
    let end = text.len();
    let tree = Node { shade: Shade::Doc, children: stmts, span: (0, end), escape_first: false };
    Some(Printed { text, toks, tree, lines, fault: fault_at, commands })
}

/// A random well-formed document, written down.
pub fn well_formed(r: &mut Rng) -> (Doc, Printed) {
    loop {
        let shape = Shape::random(r);
        let doc = document(r, &shape);
        let layout = r.chance(80);
        if let Some(p) = print(r, &doc, layout, None) {
            return (doc, p);
        }
    }
}

/// The same document written down again in another layout.
pub fn rewrite(r: &mut Rng, doc: &Doc) -> Option<Printed> {
    for _ in 0..5 {
        if let Some(p) = print(r, doc, true, None) {
            return Some(p);
        }
    }
    None
}

pub fn show(n: &Node, out: &mut String) {
    use std::fmt::Write;
    match &n.shade {
        Shade::Module(s) | Shade::Ident(s) | Shade::Text(s) => {
            let tag = match n.shade {
                Shade::Module(_) => 'M',
                Shade::Ident(_) => 'I',
                _ => 'T',
            };
            let _ = write!(out, "{}{:?} ", tag, s);
        }
        other => {
            let _ = write!(out, "{:?}( ", other);
            for c in &n.children {
                show(c, out);
            }
            out.push_str(") ");
        }
    }
}
