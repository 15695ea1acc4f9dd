//! What a batch of runs did.

use crate::rng::mix;
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<&'static str, u64>,
    /// Distinct abstract transitions (operation, parameters and position
    /// classes).
    pub transitions: HashSet<u64>,
    /// Distinct runs: hash of the sequence of abstract transitions.
    pub runs: HashSet<u64>,
    cur: u64,
    cur_len: u64,
    pub nontrivial: u64,
}

impl Stats {
    pub fn hit(&mut self, name: &'static str) {
        *self.counters.entry(name).or_insert(0) += 1;
    }
    pub fn add(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    /// The largest of all; such names begin with "largest".
    #[allow(dead_code)]
    pub fn most(&mut self, name: &'static str, n: u64) {
        let c = self.counters.entry(name).or_insert(0);
        *c = n.max(*c);
    }
    /// Counts under a name from elsewhere.
    pub fn add_named(&mut self, name: &str, n: u64) {
        match self.counters.keys().copied().find(|k| *k == name) {
            Some(k) => self.add(k, n),
            None => self.add(Box::leak(name.into()), n),
        }
    }
    pub fn step(&mut self, t: u64) {
        let t = mix(t);
        self.transitions.insert(t);
        self.cur = mix(self.cur.wrapping_mul(31).wrapping_add(t));
        self.cur_len += 1;
    }
    pub fn end_run(&mut self) {
        if self.cur_len >= 3 {
            self.nontrivial += 1;
            self.runs.insert(self.cur);
        }
        self.cur = 0;
        self.cur_len = 0;
    }
}
