//! brack-monitor: runs the real Brack crates under generated workloads while monitors judge every execution.
mod answers;
mod apart;
mod case;
mod cli;
mod config;
mod contain;
mod doc;
mod front;
mod gen;
mod lsp;
mod plug;
mod programs;
mod serial;
mod steady;
mod robust;
mod rng;
mod text;
mod wf;
mod work;

#[global_allocator]
static ALLOCATOR: work::Counting = work::Counting;


use case::Case;
use rng::Rng;
use serde_json::json;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

struct Args {
    property: String,
    seed: u64,
    shard: u64,
    cases: u64,
    only: Option<u64>,
    seconds: u64,
    dir: PathBuf,
    wasm: PathBuf,
    thorough: bool,
}

fn args() -> Args {
    let mut a = Args {
        property: String::new(),
        seed: 1,
        shard: 0,
        cases: 100,
        only: None,
        seconds: 30,
        dir: ".".into(),
        wasm: ".".into(),
        thorough: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().unwrap_or_else(|| panic!("{} needs a value", k));
        match k.as_str() {
            "--seed" => a.seed = v().parse().unwrap(),
            "--shard" => a.shard = v().parse().unwrap(),
            "--cases" => a.cases = v().parse().unwrap(),
            "--only" => a.only = Some(v().parse().unwrap()),
            "--seconds" => a.seconds = v().parse().unwrap(),
            "--dir" => a.dir = v().into(),
            "--wasm" => a.wasm = v().into(),
            "--thorough" => a.thorough = true,
            p => a.property = p.to_string(),
        }
    }
    a
}

fn check(property: &str) -> fn(&mut Case) -> front::Check {
    match property {
        "C01" => front::c01,
        "C02" => front::c02,
        "C03" => front::c03,
        "C04" => front::c04,
        "C05" => front::c05,
        "C06" => front::c06,
        "C07" => front::c07,
        "C08" => robust::c08,
        "C09" => gen::c09,
        "C10" => gen::c10,
        "C11" => gen::c11,
        "C12" => gen::c12,
        "C13" => gen::c13,
        "C14" => contain::c14,
        "C15" => cli::c15,
        "C18" => cli::c18,
        "C24" => cli::c24,
        "C19" => lsp::c19,
        "C20" => lsp::c20,
        "C21" => lsp::c21,
        "C22" => lsp::c22,
        "C23" => lsp::c23,
        "C26" => config::c26,
        "C25" => front::c25,
        "C29" => programs::c29,
        "C30" => programs::c30,
        "C31" => steady::c31,
        "C32" => serial::c32,
        "C33" => steady::c33,
        "C34" => apart::c34,
        "C35" => work::c35,
        other => {
            eprintln!("unknown property {}", other);
            std::process::exit(2);
        }
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--describe") {
        let mut text = String::new();
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).expect("a document");
        match apart::describe(&text) {
            Ok(v) => print!("{}", v),
            Err(e) => panic!("{}", e),
        }
        return;
    }
    let a = args();
    let run = check(&a.property);
    std::panic::set_hook(Box::new(|info| {
        let place = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let what = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", what, place));
    }));
    let started = Instant::now();
    let limit = Duration::from_secs(a.seconds);
    let mut c = Case::new(a.shard, a.dir.clone(), a.wasm.clone(), a.thorough).expect("work directory");
    c.header = format!("\"property\":\"{}\",\"seed\":{},\"shard\":{}", a.property, a.seed, a.shard);
    let mut violations = vec![];
    let mut harness_error = None;
    let mut done = 0u64;
    let range = match a.only {
        Some(i) => i..i + 1,
        None => 0..a.cases,
    };
    for index in range {
        if started.elapsed() > limit {
            break;
        }
        c.r = Rng::new(a.seed, a.shard, index);
        c.index = index;
        c.inputs.clear();
        let outcome = catch_unwind(AssertUnwindSafe(|| run(&mut c)));
        done += 1;
        let message = match outcome {
            Ok(Ok(())) => continue,
            Ok(Err(m)) => m,
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                if m.contains(" at src/") || m.contains("/verif/harness/src") {
                    format!("!harness panicked: {}", m)
                } else {
                    format!("panicked: {}", m)
                }
            }
        };
        if let Some(m) = message.strip_prefix('!') {
            harness_error = Some(format!("case {}: {}", index, m));
            break;
        }
        // "@signature@ message": a failure that may be listed as known
        let (signature, message) = match message.strip_prefix('@').and_then(|m| m.split_once("@ ")) {
            Some((s, m)) => (Some(s.to_string()), m.to_string()),
            None => (None, message),
        };
        violations.push(json!({
            "signature": signature,
            "property": a.property, "seed": a.seed, "shard": a.shard, "index": index,
            "message": message, "inputs": c.inputs,
        }));
        if violations.len() >= 3 {
            break;
        }
    }
    let result = json!({
        "evaluations": c.evaluations,
        "cases": done,
        "complete": a.only.is_some() || done == a.cases,
        "nontrivial": c.nontrivial.iter().map(|h| format!("{:x}", h)).collect::<Vec<_>>(),
        "counters": c.counters,
        "samples": c.samples,
        "violations": violations,
        "harness_error": harness_error,
    });
    std::fs::write(a.dir.join(format!("result.{}.json", a.shard)), result.to_string()).expect("result");
    for v in &violations {
        println!("{}", v);
    }
    if let Some(e) = harness_error {
        eprintln!("harness error: {}", e);
        std::process::exit(3);
    }
}
