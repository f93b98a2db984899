//! What the monitors observed.
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub checks: u64,
    pub events: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub transcript: u64,
    /// violation tag for known-findings matching, set by a failing case
    pub sig: String,
}

pub const CAP: usize = 400_000;

impl Stats {
    pub fn ev(&mut self, k: &str, n: u64) {
        if let Some(x) = self.events.get_mut(k) { *x += n } else { self.events.insert(k.into(), n); }
    }
    pub fn fp(&mut self, h: u64, nontrivial: bool) {
        if self.distinct.len() < CAP {
            self.distinct.insert(h);
            if nontrivial { self.nontrivial.insert(h); }
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 { self.samples.push(s()) }
    }
    pub fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.checks += o.checks;
        for (k, v) in o.events { self.ev(&k, v); }
        self.distinct.extend(o.distinct);
        self.nontrivial.extend(o.nontrivial);
        for s in o.samples { if self.samples.len() < 12 { self.samples.push(s) } }
    }
}
