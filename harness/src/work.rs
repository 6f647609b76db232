//! The work for a document stays in proportion to it (C35): allocations are counted while the real
//! stages handle documents of one form and growing size.
use crate::case::Case;
use crate::ensure;
use crate::front::Check;
use crate::gen::{fitted, world, Module, Wishes, World};
use crate::plug::Entry;
use crate::rng::{fnv, Rng};
use crate::text::{arbitrary, shorten, SPECIAL};
use crate::wf::{form, Form};
use crate::doc;
use brack_plugin::feature_flag::FeatureFlag;
use brack_plugin::types::Type;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    // of this thread alone: the plugin runtime's timer thread allocates in a loop for as long as a call
    // lasts, which says how busy the machine is and nothing about the document
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n as u64 + 16));
}

fn bytes() -> u64 {
    BYTES.with(|b| b.get())
}

// SAFETY: everything is left to the system's allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        System.realloc(p, l, n)
    }
}

pub fn spent<T>(f: impl FnOnce() -> T) -> (T, u64, f64) {
    let cpu = || {
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        // SAFETY: t is valid for the call
        unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    };
    let (b, t) = (bytes(), cpu());
    let x = f();
    (x, bytes() - b, cpu() - t)
}

/// Allocated bytes and processor seconds of each stage.
type Row = Vec<(&'static str, u64, f64)>;

fn measure(text: &str, world: Option<&mut World>) -> Result<Row, String> {
    let mut out = vec![];
    let (tokens, b, t) = spent(|| brack_tokenizer::tokenize::tokenize_str(text));
    out.push(("tokenizing", b, t));
    let Ok(tokens) = tokens else { return Ok(out) };
    let (cst, b, t) = spent(|| brack_parser::parse::parse(&tokens));
    out.push(("parsing", b, t));
    let Ok(cst) = cst else { return Ok(out) };
    let ((ast, errors), b, t) = spent(|| brack_transformer::transform::transform(&cst));
    out.push(("transforming", b, t));
    let Some(w) = world else { return Ok(out) };
    if !errors.is_empty() {
        return Ok(out);
    }
    let (expanded, b, t) = spent(|| brack_expander::expand::expander(&ast, &mut w.plugins));
    out.push(("expanding", b, t));
    let Ok(expanded) = expanded else { return Ok(out) };
    let (_, b, t) = spent(|| brack_codegen::generate::generate(&expanded, &mut w.plugins));
    out.push(("generating", b, t));
    Ok(out)
}

/// How documents grow.
enum Growth {
    /// before, again and again, after
    Repeat(String, String, String),
    /// opened again and again, innermost, closed as often
    Nest(String, String, String),
}

impl Growth {
    fn text(&self, n: usize) -> String {
        match self {
            Growth::Repeat(a, p, z) => format!("{}{}{}", a, p.repeat(n), z),
            Growth::Nest(a, p, z) => format!("{}{}{}", a.repeat(n), p, z.repeat(n)),
        }
    }
    /// Levels of nesting each step adds at most.
    fn levels(&self) -> usize {
        let opens = |s: &str| s.matches(['[', '{', '<']).count();
        match self {
            Growth::Nest(a, _, _) => opens(a),
            Growth::Repeat(_, p, _) => {
                // balanced pieces add none
                let balanced = crate::wf::form(p) == crate::wf::Form::Well;
                if balanced { 0 } else { opens(p) }
            }
        }
    }
}

fn growth(r: &mut Rng) -> Growth {
    let few = |r: &mut Rng, n: usize| arbitrary(r, n);
    match r.below(12) {
        10 | 11 => {
            // faults again and again, each one to be reported
            let fault = *r.pick(&["[.b]", "{a}", "<a.>", "]", "}", ">", "[a.b ,x]", "[a.b x,]", "[a.b x,,y]", "[a.b ", "[a.b.c]", "\\q", "[]"]);
            let after = *r.pick(&["\n\n", "\n\n", "\n", "", " "]);
            Growth::Repeat(String::new(), format!("{}{}", fault, after), String::new())
        }
        0..=2 => {
            // a document again and again
            let text = doc::well_formed(r).1.text;
            let text = if text.is_empty() || text.len() > 300 { "a [b.c d]\n".to_string() } else { text };
            Growth::Repeat(String::new(), text + *r.pick(&["", "\n", "\n\n", "x"]), String::new())
        }
        3 => Growth::Repeat(String::new(), r.pick(SPECIAL).to_string(), String::new()),
        4 => Growth::Repeat(String::new(), few(r, 8) + "x", String::new()),
        5 | 6 => {
            let (open, close) = *r.pick(&[("[a.b x", "]"), ("{a.b x", "}"), ("<a.b x", ">"), ("[<a.b>.c x", "]"), ("[a.b x", "")]);
            let piece = *r.pick(&[", y", " y", "\ny", ",", "é", "\\,", "{c.d x}", ", [c.d]", ".", "\\q", " ", "\n", ", <c.d x, y> z"]);
            Growth::Repeat(open.into(), piece.into(), close.into())
        }
        _ => {
            let (mut open, mut close) = (String::new(), String::new());
            for _ in 0..r.range(1, 3) {
                let (a, z) = *r.pick(&[("[a.b ", "]"), ("{a.b x ", " y}"), ("<a.b x, ", ", y>"), ("<", ".b>"), ("[a.", " x]"), ("{", ".b x}"), ("[a.b ", ""), ("[", "]"), ("{a.b x,", ",}"), ("[a.b x.", "]")]);
                open.push_str(a);
                close.insert_str(0, z);
            }
            Growth::Nest(open, r.pick(&["x", "", "<a.b>", "\\]", "\n"]).to_string(), close)
        }
    }
}

fn grow(c: &mut Case, g: &Growth, mut world: Option<&mut World>, most: usize) -> Check {
    // the largest of four sizes, each twice the one before
    let mut top = most / g.text(1).len().max(1);
    if g.levels() > 0 {
        top = top.min(240 / g.levels());
    }
    let top = (top / 8).max(1) * 8;
    let sizes = [top / 8, top / 4, top / 2, top];
    c.input(&format!("{:?} times: {}", sizes, shorten(&g.text(1), 2000)));
    c.nontrivial(true, fnv(g.text(2).as_bytes()));
    let mut rows: Vec<Row> = vec![];
    for n in sizes {
        let text = g.text(n);
        let mut row = measure(&text, world.as_deref_mut())?;
        // what else the machine does must not count
        for _ in 0..2 {
            if row.iter().any(|x| x.2 > 0.05) {
                for (a, b) in row.iter_mut().zip(measure(&text, world.as_deref_mut())?) {
                    a.1 = a.1.min(b.1);
                    a.2 = a.2.min(b.2);
                }
            }
        }
        rows.push(row);
    }
    c.count("documents measured", rows.len());
    let stages = rows.iter().map(|r| r.len()).min().unwrap_or(0);
    for k in 0..stages {
        let (stage, last, seconds) = rows[3][k];
        c.count(&format!("growths of {}", stage), 1);
        if last > 400_000 {
            // reallocation doubles what it asks for: allow for that
            let first = rows[0][k].1.max(2000);
            // the plugin runtime prepares each plugin at its first call
            let runtime = if stage == "expanding" || stage == "generating" { 20 << 20 } else { 0 };
            ensure!(
                last < first * 64 * 2 + runtime,
                "{} takes {} times the memory for a document of eight times the size ({:?} bytes allocated for {:?} pieces)",
                stage,
                last / first,
                rows.iter().map(|r| r[k].1).collect::<Vec<_>>(),
                sizes
            );
        }
        if seconds > 0.3 {
            let before = rows[1][k].2.max(0.002);
            ensure!(
                seconds < before * 16.0 * 3.0,
                "{} takes {:.1} times the time for a document of four times the size ({:.3} s and {:.3} s for {} and {} pieces)",
                stage,
                seconds / before,
                before,
                seconds,
                sizes[1],
                sizes[3]
            );
            c.count("growths of time judged", 1);
        }
    }
    Ok(())
}

pub fn c35(c: &mut Case) -> Check {
    if c.index % 10 == 5 {
        let mut modules = world(c, &Wishes { hooks: true, macros: true, failing: false, pure: true });
        if !modules.iter().any(|m| m.name == "quick") {
            let entry = |command: &str, call: &str, ret: Type| Entry { command: command.into(), call: call.into(), args: vec![Type::TArray(Box::new(Type::TInline))], ret };
            let entries = vec![entry("m", "m2", Type::TAST), entry("i", "empty", Type::TInline), entry("b", "noout", Type::TBlock)];
            modules.push(Module { name: "quick".into(), entries, flag: FeatureFlag::default() });
        }
        let mut w = World::load(c, modules, "c35")?;
        // a great many calls of one kind; each of a macro is given the whole document
        if c.index == 5 || c.r.chance(25) {
            let n = if c.thorough { 600 } else if c.index == 5 && c.shard == 0 { 400 } else { 160 };
            let text = *c.r.pick(&["<quick.m>", "<quick.m>", "<quick.m>\n\n", "<quick.m>\n", "[quick.i]", "{quick.b}", "[quick.i <quick.m>]"]);
            let text = if c.index == 5 { "<quick.m>\n\n" } else { text };
            grow(c, &Growth::Repeat(String::new(), text.to_string(), String::new()), Some(&mut w), text.len() * n)?;
        }
        for _ in 0..3 {
            let mut text = fitted(c, &w.modules.clone(), true).1;
            if text.len() > 400 {
                text = fitted(c, &w.modules.clone(), true).1;
            }
            text.push_str(*c.r.pick(&["", "\n", "\n\n"]));
            if form(&text) == Form::Well && (1..1500).contains(&text.len()) {
                grow(c, &Growth::Repeat(String::new(), text, String::new()), Some(&mut w), 3000)?;
            }
        }
        return Ok(());
    }
    let g = growth(&mut c.r);
    let most = if c.thorough && c.r.chance(20) { 40_000 } else { *c.r.pick(&[2000usize, 4000, 4000, 12_000]) };
    grow(c, &g, None, most)
}
