// What every replay harness shares: a seeded generator, case counting, panic capture, the RESULT line.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash as StdHash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.u64();
        r.u64();
        r
    }

    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }

    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }

    pub fn u8(&mut self) -> u8 {
        self.u64() as u8
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    /// Small values, boundary values and arbitrary ones.
    pub fn edgy(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(3) as u64,
            1 => [127, 128, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, u64::max_value() - 1, u64::max_value()]
                [self.below(12)],
            2 => self.below(1000) as u64,
            3 => {
                let k = self.below(64);
                self.u64() >> k
            }
            _ => self.u64(),
        }
    }
}

pub struct Ctx {
    pub prop:   String,
    pub seed:   u64,
    pub secs:   f64,
    pub out:    String,
    pub rng:    Rng,
    start:      Instant,
    evals:      u64,
    seen:       HashSet<u64>,
    samples:    Vec<String>,
    violations: Vec<(String, String, String)>,
    pub rule:   String,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str) -> String {
    s.chars().take(4000).collect()
}

impl Ctx {
    pub fn from_args() -> Ctx {
        let a: Vec<String> = std::env::args().collect();
        let opt = |k: &str, d: &str| {
            a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_owned())
        };
        let seed: u64 = opt("--seed", "1").parse().unwrap();
        std::panic::set_hook(Box::new(|i| {
            if std::env::var("VXH_PANICS").is_ok() {
                eprintln!("{}", i);
            }
        }));
        Ctx {
            prop: a.get(1).cloned().unwrap_or_default(),
            seed,
            secs: opt("--secs", "5").parse().unwrap(),
            out: opt("--out", "/tmp"),
            rng: Rng::new(seed),
            start: Instant::now(),
            evals: 0,
            seen: HashSet::new(),
            samples: vec![],
            violations: vec![],
            rule: String::new(),
        }
    }

    /// True while the time of the part that ends at `frac` of the budget lasts and few violations are known.
    pub fn go(&self, frac: f64) -> bool {
        self.violations.len() < 40 && self.start.elapsed() < Duration::from_millis((self.secs * frac * 1000.0) as u64)
    }

    /// Counts one case; `d` identifies it.
    pub fn case<D: StdHash>(&mut self, d: &D) {
        self.evals += 1;
        let mut h = DefaultHasher::new();
        d.hash(&mut h);
        self.seen.insert(h.finish());
    }

    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < 5 {
            let s = f();
            self.samples.push(clip(&s));
        }
    }

    pub fn fail(&mut self, key: &str, what: &str, replay: String) {
        if self.violations.iter().any(|v| v.0 == key) {
            return;
        }
        eprintln!("[{}] {}: {}\n    {}", self.prop, key, what, clip(&replay));
        self.violations.push((key.to_owned(), what.to_owned(), clip(&replay)));
    }

    pub fn check(&mut self, ok: bool, key: &str, what: &str, replay: &dyn Fn() -> String) -> bool {
        if !ok {
            self.fail(key, what, replay());
        }
        ok
    }

    /// Written before an input that might end the process.
    pub fn note_case(&self, s: &str) {
        let _ = std::fs::write(format!("{}/CASE", self.out), s);
    }

    pub fn finish(self) {
        let _ = std::fs::remove_file(format!("{}/CASE", self.out));
        let v: Vec<String> = self
            .violations
            .iter()
            .map(|(k, w, r)| format!("{{\"key\":{},\"what\":{},\"replay\":{}}}", esc(k), esc(w), esc(r)))
            .collect();
        let s: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        println!(
            "RESULT {{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"violations\":[{}]}}",
            self.evals,
            self.seen.len(),
            esc(&self.rule),
            s.join(","),
            v.join(",")
        );
    }
}

/// Runs `f`; a panic becomes an `Err` with its message.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        }
    })
}
