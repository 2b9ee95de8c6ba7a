//! Shared pieces of the executable-contract harness: bounded search for an input on which the
//! real library (linked from /repo) breaks a contract that the Verus units state for all inputs.
pub mod drive;
pub mod gen;
pub mod rec;
pub mod refs;
pub use drive::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub budget: Duration,
    pub start: Instant,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub sections: Vec<(String, u64)>,
    per_what: std::collections::HashMap<String, u64>,
    out: String,
    pub rng: Rng,
    known: Vec<String>,
    known_seen: HashSet<String>,
    phase_start: Instant,
    phase_budget: Duration,
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn esc(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    for &c in b {
        match c {
            b'\\' => s.push_str("\\\\"),
            b'"' => s.push_str("\\\""),
            0x20..=0x7e => s.push(c as char),
            _ => write!(s, "\\x{:02x}", c).unwrap(),
        }
    }
    s.push('"');
    s
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &c in b {
        h = (h ^ c as u64).wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    /// bytes from `alpha`, with an occasional arbitrary byte
    pub fn bytes(&mut self, alpha: &[u8], maxlen: usize) -> Vec<u8> {
        let n = self.below(maxlen + 1);
        (0..n).map(|_| if self.chance(1, 12) { self.next() as u8 } else { *self.pick(alpha) }).collect()
    }
    /// concatenation of random pieces
    pub fn pieces(&mut self, pieces: &[&[u8]], maxn: usize) -> Vec<u8> {
        let n = self.below(maxn + 1);
        let mut v = vec![];
        for _ in 0..n {
            if self.chance(1, 16) {
                v.push(self.next() as u8);
            } else {
                v.extend_from_slice(*self.pick(pieces));
            }
        }
        v
    }
}

impl Ctx {
    pub fn done(&self) -> bool {
        self.phase_start.elapsed() >= self.phase_budget || self.start.elapsed() >= self.budget
    }
    /// Give the next phase at most `share` percent of the whole budget.
    pub fn phase(&mut self, name: &str, share: u32) {
        self.sections.push((name.to_string(), self.evals));
        self.phase_start = Instant::now();
        self.phase_budget = self.budget * share / 100;
    }
    /// Run one contract check. `what` names the contract, `input` renders the input.
    pub fn check<F>(&mut self, what: &str, key: &[u8], nontrivial: bool, input: &dyn Fn() -> String, f: F)
    where
        F: FnOnce() -> Result<(), String>,
    {
        self.evals += 1;
        if nontrivial {
            let h = hash(key) ^ hash(what.as_bytes());
            let new = self.distinct.len() < 6_000_000 && self.distinct.insert(h);
            if new || self.distinct.len() >= 6_000_000 {
                let n = self.per_what.entry(what.to_string()).or_insert(0);
                *n += 1;
                // one early and one later case of every contract
                if *n == 3 || *n == 3000 {
                    let mut t: String = input().chars().take(300).collect();
                    t = format!("{}: {}", what, t);
                    self.samples.push(t);
                }
            }
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(_) => format!("panicked: {}", LAST_PANIC.lock().unwrap()),
        };
        self.fail(what, &input(), &msg);
    }
    pub fn fail(&mut self, what: &str, input: &str, msg: &str) {
        for k in self.known.clone() {
            // a known finding is "what|input prefix"
            let (w, p) = k.split_once('|').unwrap_or((k.as_str(), ""));
            if w == what && input.contains(p) {
                if self.known_seen.insert(k.clone()) {
                    println!("KNOWN {}", k);
                }
                return;
            }
        }
        let j = format!(
            "{{\"ok\":false,\"contract\":{},\"input\":{},\"message\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{}}}\n",
            json_str(what), json_str(input), json_str(msg), self.seed, self.evals, self.distinct.len()
        );
        std::fs::write(&self.out, &j).expect("write result");
        println!("FAIL {} input={} : {}", what, input, msg);
        std::process::exit(1);
    }
    /// Quick equality helper
    pub fn eq<T: PartialEq + std::fmt::Debug>(got: T, want: T) -> Result<(), String> {
        if got == want {
            Ok(())
        } else {
            Err(format!("got {:?}, the contract says {:?}", got, want))
        }
    }
}

/// Call f on every string over `alpha` of length 0..=n, until told to stop.
pub fn all_strings(alpha: &[u8], n: usize, f: &mut dyn FnMut(&[u8]) -> bool) -> bool {
    let mut idx: Vec<usize> = vec![];
    let mut buf: Vec<u8> = vec![];
    for len in 0..=n {
        idx.clear();
        idx.resize(len, 0);
        buf.clear();
        buf.resize(len, alpha[0]);
        loop {
            if !f(&buf) {
                return false;
            }
            let mut k = len;
            loop {
                if k == 0 {
                    break;
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < alpha.len() {
                    buf[k] = alpha[idx[k]];
                    break;
                }
                idx[k] = 0;
                buf[k] = alpha[0];
                if k == 0 {
                    k = usize::MAX;
                    break;
                }
            }
            if len == 0 || k == usize::MAX {
                break;
            }
        }
    }
    true
}

pub fn run(rule: &str, f: impl FnOnce(&mut Ctx)) {
    // usage: bin <out.json> <seed> <budget seconds> <quick|thorough> [known-findings lines file]
    let a: Vec<String> = std::env::args().collect();
    let out = a.get(1).cloned().unwrap_or_else(|| "/dev/stdout".into());
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(20.0);
    let thorough = a.get(4).map(|s| s == "thorough").unwrap_or(false);
    let known = a
        .get(5)
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| t.lines().map(|l| l.to_string()).filter(|l| !l.is_empty()).collect())
        .unwrap_or_default();
    std::panic::set_hook(Box::new(|i| {
        *LAST_PANIC.lock().unwrap() = i.to_string().replace('\n', " ");
    }));
    let budget = Duration::from_secs_f64(secs);
    let mut c = Ctx {
        seed,
        thorough,
        budget,
        start: Instant::now(),
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        sections: vec![],
        per_what: Default::default(),
        out,
        rng: Rng(seed.wrapping_mul(0x5851F42D4C957F2D) ^ 0x1234_5678),
        known,
        known_seen: HashSet::new(),
        phase_start: Instant::now(),
        phase_budget: budget,
    };
    f(&mut c);
    let samples = c.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    let mut secs_j = vec![];
    for (i, (n, e)) in c.sections.iter().enumerate() {
        let end = c.sections.get(i + 1).map(|x| x.1).unwrap_or(c.evals);
        secs_j.push(format!("{}:{}", json_str(n), end - e));
    }
    let j = format!(
        "{{\"ok\":true,\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"phases\":{{{}}},\"seed\":{},\"known\":[{}]}}\n",
        c.evals, c.distinct.len(), json_str(rule), samples, secs_j.join(","), c.seed,
        c.known_seen.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
    );
    std::fs::write(&c.out, &j).expect("write result");
    println!("OK {} evaluations", c.evals);
}
