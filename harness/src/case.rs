use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;

/// One execution under observation.
pub struct Case {
    pub r: Rng,
    pub index: u64,
    pub shard: u64,
    pub dir: PathBuf,
    pub wasm: PathBuf,
    pub thorough: bool,
    pub counters: BTreeMap<String, usize>,
    pub inputs: Vec<String>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub seen_cst: HashSet<u64>,
    pub seen_ast: HashSet<u64>,
    pub evaluations: usize,
    journal: std::fs::File,
    pub header: String,
}

impl Case {
    pub fn new(shard: u64, dir: PathBuf, wasm: PathBuf, thorough: bool) -> std::io::Result<Case> {
        let journal = std::fs::File::create(dir.join(format!("journal.{}", shard)))?;
        Ok(Case {
            r: Rng::new(0, 0, 0),
            index: 0,
            shard,
            dir,
            wasm,
            thorough,
            counters: BTreeMap::new(),
            inputs: vec![],
            nontrivial: HashSet::new(),
            samples: vec![],
            seen_cst: HashSet::new(),
            seen_ast: HashSet::new(),
            evaluations: 0,
            journal,
            header: String::new(),
        })
    }
    /// Remembers what is about to be executed, where it outlives this process.
    pub fn input(&mut self, text: &str) {
        self.evaluations += 1;
        self.inputs.push(text.to_string());
        let note = format!(
            "{{{},\"index\":{},\"input\":{}}}",
            self.header,
            self.index,
            serde_json::to_string(text).unwrap_or_default()
        );
        use std::os::unix::fs::FileExt;
        let _ = self.journal.set_len(note.len() as u64);
        let _ = self.journal.write_all_at(note.as_bytes(), 0);
    }
    pub fn nontrivial(&mut self, yes: bool, hash: u64) {
        if yes && self.nontrivial.insert(hash) && (self.samples.len() < 3) {
            if let Some(i) = self.inputs.last() {
                if i.len() > 20 && i.len() < 400 {
                    self.samples.push(i.clone());
                }
            }
        }
    }
    pub fn count(&mut self, what: &str, n: usize) {
        match self.counters.get_mut(what) {
            Some(x) => *x += n,
            None => {
                self.counters.insert(what.to_string(), n);
            }
        }
    }
}
