use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

/// What the caller wants searched, and the bookkeeping of what was.
pub struct Ctx {
    pub seed: u64,
    pub strs: Vec<String>,
    pub ints: Vec<i128>,
    pub deadline: Instant,
    pub evals: u64,
    pub violation: Option<Value>,
    pub samples: Vec<Value>,
}

impl Ctx {
    pub fn read() -> Ctx {
        let v: Value = serde_json::from_reader(std::io::stdin()).unwrap();
        let mut strs: Vec<String> = v["strs"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_owned()).collect();
        strs.dedup();
        let ints = v["ints"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().parse().unwrap()).collect();
        Ctx {
            seed: v["seed"].as_u64().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1,
            strs,
            ints,
            deadline: Instant::now() + Duration::from_millis(v["budget_ms"].as_u64().unwrap()),
            evals: 0,
            violation: None,
            samples: vec![],
        }
    }

    pub fn rnd(&mut self) -> u64 {
        self.seed ^= self.seed << 13;
        self.seed ^= self.seed >> 7;
        self.seed ^= self.seed << 17;
        self.seed.wrapping_mul(0x2545F4914F6CDD1D)
    }

    pub fn below(&mut self, n: usize) -> usize {
        ((self.rnd() >> 33) % (n as u64)) as usize
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }

    pub fn go(&self) -> bool {
        self.violation.is_none() && Instant::now() < self.deadline
    }

    pub fn eval(&mut self, sample: impl FnOnce() -> Value) {
        self.evals += 1;
        if self.samples.len() < 3 {
            self.samples.push(sample());
        }
    }

    pub fn fail(&mut self, input: Value, expected: Value, got: Value) {
        if self.violation.is_none() {
            self.violation = Some(json!({"input": input, "expected": expected, "got": got}));
        }
    }

    pub fn finish(self) {
        println!("{}", json!({"evaluations": self.evals, "samples": self.samples, "violation": self.violation}));
    }
}

/// Result of f, or the panic message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
    })
}
