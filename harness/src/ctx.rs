//! What a monitor reports to.
use std::{
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    sync::atomic::{AtomicU64, Ordering},
};

use serde_json::{Value, json};

use crate::{rng::fnv, wire::show};

/// Counts evaluations, for the watchdog.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub struct Fail {
    /// What went wrong, independent of the concrete input.
    pub sig: String,
    pub detail: String,
    pub input: Vec<u8>,
    pub index: u64,
}

pub struct Ctx {
    pub prop: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub index: u64,
    pub evals: u64,
    pub cov: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub fails: Vec<Fail>,
    pub fail_count: u64,
    pub samples: Vec<String>,
    pub replay: bool,
    /// The input of the check in progress, for attributing panics.
    pub current: Vec<u8>,
}

impl Ctx {
    pub fn new(prop: &'static str) -> Self {
        Ctx {
            prop,
            thorough: false,
            seed: 1,
            shard: 0,
            shards: 1,
            index: 0,
            evals: 0,
            cov: BTreeMap::new(),
            hashes: HashSet::new(),
            fails: Vec::new(),
            fail_count: 0,
            samples: Vec::new(),
            replay: false,
            current: Vec::new(),
        }
    }
    pub fn c(&mut self, name: &str) {
        self.cn(name, 1);
    }
    pub fn cn(&mut self, name: &str, n: u64) {
        if let Some(v) = self.cov.get_mut(name) {
            *v += n;
        } else {
            self.cov.insert(name.to_string(), n);
        }
    }
    pub fn merge(&mut self, cov: &BTreeMap<&'static str, u64>) {
        for (k, v) in cov {
            self.cn(k, *v);
        }
    }
    /// One evaluation of the oracle on a case identified by `key`.
    pub fn eval(&mut self, key: &[u8]) {
        self.evals += 1;
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        if self.hashes.len() < 4_000_000 {
            self.hashes.insert(fnv(key));
        }
        if self.samples.len() < 3 && self.evals % 97 == 1 {
            self.samples.push(show(&key[..key.len().min(400)]));
        }
    }
    /// An evaluation that is trivial or a repetition.
    pub fn tick(&mut self) {
        self.evals += 1;
        PROGRESS.fetch_add(1, Ordering::Relaxed);
    }
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>, input: &[u8]) {
        self.fail_count += 1;
        let sig = sig.into();
        if self.fails.len() < 40 && self.fails.iter().filter(|f| f.sig == sig).count() < 4 {
            self.fails.push(Fail {
                sig,
                detail: detail.into(),
                input: input.to_vec(),
                index: self.index,
            });
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, input: &[u8], detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.fail(sig, d, input);
        }
        ok
    }
    pub fn same<T: Debug + PartialEq>(&mut self, got: &T, want: &T, sig: &str, input: &[u8]) -> bool {
        let (g, w) = (format!("{got:?}"), format!("{want:?}"));
        let ok = got == want && g == w;
        if !ok {
            self.fail(sig, format!("got  {}\nwant {}", cut(&g), cut(&w)), input);
        }
        ok
    }
    pub fn json(&self) -> Value {
        json!({
            "property": self.prop,
            "evaluations": self.evals,
            "coverage": self.cov,
            "samples": self.samples,
            "violations": self.fail_count,
            "fails": self.fails.iter().map(|f| json!({
                "sig": f.sig,
                "detail": f.detail,
                "index": f.index,
                "input": hex(&f.input),
                "shown": show(&f.input),
            })).collect::<Vec<_>>(),
        })
    }
}

pub fn cut(s: &str) -> String {
    if s.len() <= 3000 {
        s.to_string()
    } else {
        let mut e = 3000;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().take(100_000).map(|b| format!("{b:02x}")).collect()
}
