//! Probe plugins: how they are made, and what they have to answer.
use crate::rng::fnv;
use brack_plugin::feature_flag::FeatureFlag;
use brack_plugin::plugin::Plugin;
use brack_plugin::types::Type;
use serde_json::{json, Value as Json};
use std::path::{Path, PathBuf};

/// One entry of a plugin's metadata.
#[derive(Clone, Debug)]
pub struct Entry {
    pub command: String,
    pub call: String,
    pub args: Vec<Type>,
    pub ret: Type,
}

pub fn type_json(t: &Type) -> Json {
    match t {
        Type::TInline => json!("TInline"),
        Type::TBlock => json!("TBlock"),
        Type::TAST => json!("TAST"),
        Type::TOption(x) => json!({ "TOption": type_json(x) }),
        Type::TArray(x) => json!({ "TArray": type_json(x) }),
        Type::TInlineCmd(s) => json!({ "TInlineCmd": s }),
        Type::TBlockCmd(s) => json!({ "TBlockCmd": s }),
    }
}

pub fn metadata(entries: &[Entry]) -> String {
    let list: Vec<Json> = entries
        .iter()
        .map(|e| {
            json!({
                "command_name": e.command, "call_name": e.call,
                "argument_types": e.args.iter().enumerate()
                    .map(|(i, t)| json!([format!("a{}", i), type_json(t)])).collect::<Vec<_>>(),
                "return_type": type_json(&e.ret),
            })
        })
        .collect();
    Json::Array(list).to_string()
}

/// Puts text into the place a plugin has for it.
pub fn patch(mut bin: Vec<u8>, place: &str, text: &[u8]) -> Result<Vec<u8>, String> {
    let needle = format!("@@{}@@", place).into_bytes();
    let find = |bin: &[u8], from: usize, needle: &[u8]| bin[from..].windows(needle.len()).position(|w| w == needle).map(|n| n + from);
    let from = find(&bin, 0, &needle).ok_or(format!("!no place for {}", place))?;
    let to = find(&bin, from, b"@@END@@@").ok_or(format!("!no end of {}", place))? + 8;
    if text.len() > to - from {
        return Err(format!("!{} is too long", place));
    }
    for b in &mut bin[from..to] {
        *b = b' ';
    }
    bin[from..from + text.len()].copy_from_slice(text);
    Ok(bin)
}

/// The probe with this metadata in it.
pub fn probe(wasm: &Path, meta: &str) -> Result<Vec<u8>, String> {
    let bin = std::fs::read(wasm.join("probe.wasm")).map_err(|e| format!("!probe.wasm: {}", e))?;
    patch(bin, "META", meta.as_bytes())
}

pub fn write(wasm: &Path, path: &Path, meta: &str) -> Result<(), String> {
    std::fs::write(path, probe(wasm, meta)?).map_err(|e| format!("!{}", e))
}

pub fn load(path: &PathBuf, name: &str, flag: FeatureFlag) -> Result<Plugin, String> {
    Plugin::new(name, path, flag).map_err(|e| format!("{:#}", e))
}

pub fn tail(k: usize) -> &'static str {
    match k % 8 {
        1 => "<[{.,\\}]>",
        2 => " \n ",
        3 => "\"\\n\\u0041\"",
        4 => "é👨\u{200d}👩",
        5 => "  ",
        6 => "&lt;%s{0}",
        7 => "\t\u{1}\r\n",
        _ => "",
    }
}

/// What a probe instance answers; `counter` is its number of calls so far.
pub fn answer(call: &str, counter: &mut usize, input: &str) -> Result<String, String> {
    let n: usize = call[1..].parse().unwrap_or(0);
    let h = fnv(input.as_bytes());
    if call == "empty" || call == "noout" {
        *counter += 1;
        return Ok(String::new());
    }
    if call.starts_with("f_") || call == "gone" {
        *counter += 1;
        return Err(format!("{} fails", call));
    }
    match &call[..1] {
        "c" => {
            let s = format!("{{{}#{}:{:016x}}}{}", n, counter, h, tail(n));
            *counter += 1;
            Ok(s)
        }
        "s" => Ok(format!("{{{}:{:016x}}}{}", n, h, tail(n))),
        _ => Err(format!("!unknown call {}", call)),
    }
}
