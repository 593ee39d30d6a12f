//! What a property's checker records while it observes executions.

use crate::util::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub msg: String,
    pub input: Vec<u8>,
    pub case: u64,
}

#[derive(Clone, Debug)]
pub struct Panic {
    pub msg: String,
    pub file: String,
    pub line: u32,
}

impl std::fmt::Display for Panic {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "panic at {}:{}: {}", self.file, self.line, self.msg)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<Panic>> = const { RefCell::new(None) };
}

/// Panic payload of a buffer whose step budget ran out.
pub struct OutOfSteps;

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().downcast_ref::<OutOfSteps>().is_some() {
            "the step budget ran out: the number of buffer accesses isn't bounded by the size of the input".into()
        } else {
            "?".into()
        };
        let (file, line) = info
            .location()
            .map(|l| (l.file().to_string(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(Panic { msg, file, line }));
    }));
}

/// Runs code of the library under test, catching panics.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Panic> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            // A payload's own drop may not panic.
            std::mem::forget(e);
            Err(LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(Panic { msg: "?".into(), file: "?".into(), line: 0 }))
        }
    }
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub case: u64,
    pub rng: Rng,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub assumptions: Vec<String>,
}

/// Violations recorded per worker before it stops.
pub const MAX_VIOLATIONS: usize = 6;

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier, seed: u64) -> Ctx {
        Ctx {
            prop,
            tier,
            seed,
            case: 0,
            rng: Rng::new(0),
            evals: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            violations: vec![],
            assumptions: vec![],
        }
    }
    pub fn start(&mut self, case: u64) {
        self.case = case;
        let s = Fnv::new().u(self.seed).bytes(self.prop.as_bytes()).u(case).0;
        self.rng = Rng::new(s);
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// One execution judged by a monitor.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// A maximum: the name starts with "max".
    pub fn max(&mut self, k: &str, n: u64) {
        debug_assert!(k.starts_with("max"));
        let c = self.counters.entry(k.to_string()).or_insert(0);
        *c = (*c).max(n);
    }
    /// Marks a distinct, non-trivial case by the hash of what makes it distinct.
    pub fn distinct(&mut self, h: u64) {
        if self.distinct.len() < 400_000 {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 && (self.samples.is_empty() || self.rng.chance(1, 50)) {
            let s = clip(&f(), 600);
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, key: &str, msg: impl Into<String>, input: &[u8]) {
        if self.violations.len() < MAX_VIOLATIONS {
            self.violations.push(Violation {
                key: key.to_string(),
                msg: clip(&msg.into(), 4000),
                input: input[..input.len().min(1 << 20)].to_vec(),
                case: self.case,
            });
        }
    }
    /// Runs library code; a panic is a violation with the given key.
    pub fn guarded<R>(&mut self, what: &str, input: &[u8], f: impl FnOnce() -> R) -> Option<R> {
        match guard(f) {
            Ok(r) => Some(r),
            Err(p) => {
                self.violation("panic", format!("{what}: {p}"), input);
                None
            }
        }
    }
}
