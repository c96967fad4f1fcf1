//! Per-run simulation context: tape, event log, counters.
use crate::tape::{fnv, Tape};
use std::collections::{BTreeMap, HashSet};

#[derive(Debug, Clone)]
pub struct Violation {
    /// stable class of the failure, used to keep the same failure while minimising
    pub key: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Violation>;

pub fn viol<T>(key: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Violation { key: key.into(), msg: msg.into() })
}

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub nontrivial: u64,
    pub steps: u64,
    pub evals: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub sigs: HashSet<u64>,
    pub inputs: HashSet<u64>,
}

pub struct Ctx {
    pub t: Tape,
    pub faults_on: bool,
    pub hash_seed: u64,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub digest: u64,
    pub sig: u64,
    pub input_sig: u64,
    pub steps: u64,
    pub evals: u64,
    pub nontrivial: bool,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
}

impl Ctx {
    pub fn new(t: Tape, faults_on: bool, hash_seed: u64, tracing: bool) -> Self {
        Ctx {
            t,
            faults_on,
            hash_seed,
            tracing,
            trace: vec![],
            digest: 0xcbf29ce484222325,
            sig: 0xcbf29ce484222325,
            input_sig: 0xcbf29ce484222325,
            steps: 0,
            evals: 0,
            nontrivial: false,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
        }
    }
    /// One scheduler step of actor `who` doing `what`: part of the interleaving signature.
    pub fn step(&mut self, who: usize, what: &'static str) {
        self.steps += 1;
        self.sig = fnv(self.sig, &[who as u8]);
        self.sig = fnv(self.sig, what.as_bytes());
        self.digest = fnv(self.digest, &[who as u8]);
        self.digest = fnv(self.digest, what.as_bytes());
        if self.tracing {
            self.trace.push(format!("[{}] s{} {}", self.steps, who, what));
        }
    }
    /// Observable outcome: part of the determinism digest.
    pub fn obs(&mut self, s: &str) {
        self.digest = fnv(self.digest, s.as_bytes());
        if self.tracing {
            self.trace.push(s.to_string());
        }
    }
    /// Human-readable detail in trace mode only.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            self.trace.push(s);
        }
    }
    /// An input (schema/document text) used by the run: counts distinct inputs.
    pub fn input(&mut self, s: &str) {
        self.input_sig = fnv(self.input_sig, s.as_bytes());
        self.digest = fnv(self.digest, s.as_bytes());
        if self.tracing {
            self.trace.push(format!("--- input\n{s}\n---"));
        }
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_default() += 1;
        self.sig = fnv(self.sig, k.as_bytes());
        self.digest = fnv(self.digest, k.as_bytes());
        if self.tracing {
            self.trace.push(format!("[{}] FAULT {}", self.steps, k));
        }
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_default() += 1;
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// draw a fault decision: never true in fault-free configurations
    pub fn f(&mut self, num: usize, den: usize) -> bool {
        if self.faults_on {
            self.t.chance(num, den)
        } else {
            false
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)*) => {
        if !$c { return $crate::ctx::viol($key, format!($($a)*)); }
    };
}
