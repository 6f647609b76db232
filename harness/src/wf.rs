//! A reference recogniser: is a text a well-formed document? Written from the language, not from the code.
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    Well,
    Ill,
    /// corners the language does not settle (a line break in a head, a bracket or comma glued to a name)
    Unsettled,
}

struct Reader<'a> {
    gs: Vec<&'a str>,
    i: usize,
}

type Step = Result<(), Form>;

fn closer(g: &str) -> Option<&'static str> {
    match g {
        "[" => Some("]"),
        "{" => Some("}"),
        "<" => Some(">"),
        _ => None,
    }
}

fn escapable(g: &str) -> bool {
    ["[", "]", "{", "}", "<", ">", ".", ",", "\\"].contains(&g)
}

fn blank(g: &str) -> bool {
    g == " " || g == "\n" || g == "\r\n"
}

impl<'a> Reader<'a> {
    fn peek(&self) -> Option<&'a str> {
        self.gs.get(self.i).copied()
    }
    fn escape(&mut self) -> Step {
        self.i += 1;
        match self.peek() {
            Some(g) if escapable(g) => {
                self.i += 1;
                Ok(())
            }
            _ => Err(Form::Ill),
        }
    }
    fn document(&mut self) -> Step {
        while let Some(g) = self.peek() {
            if closer(g).is_some() {
                self.command()?;
            } else if g == "\\" {
                self.escape()?;
            } else if ["]", "}", ">"].contains(&g) {
                return Err(Form::Ill);
            } else {
                self.i += 1;
            }
        }
        Ok(())
    }
    /// A name or a macro; `ends` are what may follow it.
    fn part(&mut self, ends: &[&str]) -> Step {
        match self.peek() {
            None => return Err(Form::Ill),
            Some("<") => self.command()?,
            _ => {
                let from = self.i;
                while let Some(g) = self.peek() {
                    if escapable(g) || blank(g) {
                        break;
                    }
                    self.i += 1;
                }
                if self.i == from {
                    return match self.peek() {
                        Some("." | " " | "]" | "}" | ">") => Err(Form::Ill),
                        _ => Err(Form::Unsettled),
                    };
                }
            }
        }
        match self.peek() {
            None => Err(Form::Ill),
            Some(g) if ends.contains(&g) => Ok(()),
            Some("." | " " | "]" | "}" | ">") => Err(Form::Ill),
            Some(_) => Err(Form::Unsettled),
        }
    }
    fn command(&mut self) -> Step {
        let close = closer(self.gs[self.i]).unwrap();
        self.i += 1;
        self.part(&["."])?;
        self.i += 1;
        self.part(&[" ", close])?;
        if self.peek() == Some(close) {
            self.i += 1;
            return Ok(());
        }
        let (mut commas, mut empty) = (0, true);
        loop {
            let Some(g) = self.peek() else { return Err(Form::Ill) };
            if g == close {
                if commas > 0 && empty {
                    return Err(Form::Ill);
                }
                self.i += 1;
                return Ok(());
            }
            match g {
                "]" | "}" | ">" | "." => return Err(Form::Ill),
                "," => {
                    if empty {
                        return Err(Form::Ill);
                    }
                    commas += 1;
                    empty = true;
                    self.i += 1;
                }
                "[" | "{" | "<" => {
                    empty = false;
                    self.command()?;
                }
                "\\" => {
                    empty = false;
                    self.escape()?;
                }
                g if blank(g) => self.i += 1,
                _ => {
                    empty = false;
                    self.i += 1;
                }
            }
        }
    }
}

pub fn form(text: &str) -> Form {
    let mut r = Reader { gs: text.graphemes(true).collect(), i: 0 };
    match r.document() {
        Ok(()) => Form::Well,
        Err(f) => {
            // a fault found first does not settle a text with unsettled parts further on
            f
        }
    }
}

// ---------------------------------------------------------------------------------------------

use crate::doc::{Kind, Node, Shade};

struct Builder<'a> {
    text: &'a str,
    gs: Vec<(usize, &'a str)>,
    i: usize,
    pub commands: usize,
}

fn leaf(shade: Shade, span: (usize, usize), escape_first: bool) -> Node {
    Node { shade, children: vec![], span, escape_first }
}

/// A node around others, from the first to the last of them.
fn around(shade: Shade, children: Vec<Node>) -> Node {
    let span = (children[0].span.0, children[children.len() - 1].span.1);
    let escape_first = matches!(shade, Shade::Expr) && children[0].escape_first;
    Node { shade, children, span, escape_first }
}

fn append(nodes: &mut Vec<Node>, piece: &str, span: (usize, usize), escaped: bool) {
    match nodes.last_mut() {
        Some(Node { shade: Shade::Text(t), span: s, .. }) => {
            t.push_str(piece);
            s.1 = span.1;
        }
        _ => nodes.push(leaf(Shade::Text(piece.to_string()), span, escaped)),
    }
}

impl<'a> Builder<'a> {
    fn peek(&self) -> &'a str {
        self.gs.get(self.i).map(|g| g.1).unwrap_or("")
    }
    fn at(&self) -> usize {
        self.gs.get(self.i).map(|g| g.0).unwrap_or(self.text.len())
    }
    /// One character of text, escaped or not.
    fn piece(&mut self, nodes: &mut Vec<Node>) {
        let from = self.at();
        let escaped = self.peek() == "\\";
        self.i += escaped as usize;
        let g = self.peek();
        self.i += 1;
        append(nodes, g, (from, self.at()), escaped);
    }
    fn document(&mut self) -> Node {
        let (mut stmts, mut lines): (Vec<Node>, Vec<Node>) = (vec![], vec![]);
        while self.i < self.gs.len() {
            let mut breaks = 0;
            while self.peek() == "\n" || self.peek() == "\r\n" {
                self.i += 1;
                breaks += 1;
            }
            if breaks > 1 && !lines.is_empty() {
                stmts.push(around(Shade::Stmt, std::mem::take(&mut lines)));
            }
            let mut line = vec![];
            while self.i < self.gs.len() && self.peek() != "\n" && self.peek() != "\r\n" {
                if closer(self.peek()).is_some() {
                    line.push(self.command());
                } else {
                    self.piece(&mut line);
                }
            }
            if !line.is_empty() {
                lines.push(around(Shade::Expr, line));
            }
        }
        if !lines.is_empty() {
            stmts.push(around(Shade::Stmt, lines));
        }
        Node { shade: Shade::Doc, children: stmts, span: (0, self.text.len()), escape_first: false }
    }
    fn part(&mut self, module: bool) -> Node {
        if self.peek() == "<" {
            return self.command();
        }
        let from = self.at();
        while !self.peek().is_empty() && !escapable(self.peek()) && !blank(self.peek()) {
            self.i += 1;
        }
        let name = self.text[from..self.at()].to_string();
        leaf(if module { Shade::Module(name) } else { Shade::Ident(name) }, (from, self.at()), false)
    }
    fn command(&mut self) -> Node {
        self.commands += 1;
        let from = self.at();
        let (kind, close) = match self.peek() {
            "[" => (Kind::Square, "]"),
            "{" => (Kind::Curly, "}"),
            _ => (Kind::Angle, ">"),
        };
        self.i += 1;
        let mut children = vec![self.part(true)];
        self.i += 1;
        children.push(self.part(false));
        let mut arg: Vec<Node> = vec![];
        // blanks mean something only between two other things of an argument
        let mut spaces: Vec<(usize, usize)> = vec![];
        loop {
            let g = self.peek();
            if g == close || g == "," || g.is_empty() {
                if !arg.is_empty() {
                    children.push(around(Shade::Expr, std::mem::take(&mut arg)));
                }
                spaces.clear();
                self.i += 1;
                if g != "," {
                    break;
                }
                continue;
            }
            if blank(g) {
                let at = self.at();
                self.i += 1;
                if g == " " && !arg.is_empty() {
                    spaces.push((at, self.at()));
                }
                continue;
            }
            for s in spaces.drain(..) {
                append(&mut arg, " ", s, false);
            }
            if closer(g).is_some() {
                let command = self.command();
                arg.push(command);
            } else {
                self.piece(&mut arg);
            }
        }
        Node { shade: Shade::Cmd(kind), children, span: (from, self.at()), escape_first: false }
    }
}

/// What a text that is a well-formed document (and only such a text) says, and how many commands it has.
pub fn tree(text: &str) -> (Node, usize) {
    let mut b = Builder { text, gs: text.grapheme_indices(true).collect(), i: 0, commands: 0 };
    let node = b.document();
    (node, b.commands)
}
