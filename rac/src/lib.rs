//! Run-time evaluation of the contracts on the real code: the search for a concrete failing
//! input that accompanies every proof, and the bounded stand-in where a proof is unavailable.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use c_to_wasm_compiler as cc;

pub mod wasm;
pub mod irgen;
pub mod blockgen;
pub mod flatgen;
pub mod pipeline;
pub mod interp;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u64() % n }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

pub struct Violation {
    /// names the failing input class; what the known-findings file is matched against
    pub key: String,
    pub contract: String,
    pub input: String,
    pub expected: String,
    pub actual: String,
}

pub struct Ctx {
    pub property: &'static str,
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    pub deep: bool,
    pub evals: u64,
    seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    keys: HashSet<String>,
    pub notes: Vec<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Ctx {
    /// scale a case count by tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough || self.deep { thorough } else { quick }
    }
    /// record one evaluated case
    pub fn case(&mut self, desc: impl FnOnce() -> String) {
        self.evals += 1;
        if self.evals <= 20_000 || (self.evals < 200_000 && self.evals % 97 == 0) {
            let d = desc();
            if self.seen.insert(hash(&d)) && self.samples.len() < 5 {
                self.samples.push(d.chars().take(400).collect());
            }
        }
    }
    pub fn distinct(&mut self, d: &str) {
        self.seen.insert(hash(d));
    }
    /// one violation per key is kept
    pub fn fail(&mut self, key: impl Into<String>, contract: &str, input: impl Into<String>, expected: impl Into<String>, actual: impl Into<String>) {
        let key = key.into();
        if self.keys.len() < 200 && self.keys.insert(key.clone()) {
            self.violations.push(Violation { key, contract: contract.into(), input: input.into(), expected: expected.into(), actual: actual.into() });
        }
    }
    pub fn too_many(&self) -> bool {
        self.violations.len() >= 60
    }
}

/// Run `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub fn run(property: &'static str, rule: &str, f: impl FnOnce(&mut Ctx)) {
    let env = |k: &str| std::env::var(k).unwrap_or_default();
    let seed: u64 = env("VERIF_SEED").parse().unwrap_or(1);
    std::panic::set_hook(Box::new(|i| if std::env::var("C2W_PANICS").is_ok() { eprintln!("{i}\n{}", std::backtrace::Backtrace::force_capture()) }));
    let mut c = Ctx {
        property,
        rng: Rng::new(seed),
        seed,
        thorough: env("VERIF_TIER") == "thorough",
        deep: env("VERIF_DEEP") == "1",
        evals: 0,
        seen: HashSet::new(),
        samples: vec![],
        violations: vec![],
        keys: HashSet::new(),
        notes: vec![],
    };
    f(&mut c);
    let vs: Vec<String> = c
        .violations
        .iter()
        .map(|v| format!("{{\"key\":{},\"contract\":{},\"input\":{},\"expected\":{},\"actual\":{}}}", esc(&v.key), esc(&v.contract), esc(&v.input), esc(&v.expected), esc(&v.actual)))
        .collect();
    let ss: Vec<String> = c.samples.iter().map(|s| esc(s)).collect();
    let ns: Vec<String> = c.notes.iter().map(|s| esc(s)).collect();
    println!(
        "RAC-RESULT {{\"property\":{},\"evaluations\":{},\"distinct\":{},\"rule\":{},\"samples\":[{}],\"notes\":[{}],\"violations\":[{}]}}",
        esc(property), c.evals, c.seen.len(), esc(rule), ss.join(","), ns.join(","), vs.join(",")
    );
}
