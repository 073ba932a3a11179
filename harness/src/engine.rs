//! A small property-testing engine: every case is decoded from a tape of random draws, so that a
//! failing case is shrunk (and stored, and replayed) by editing its tape. Draw 0 is always the
//! simplest choice, and an exhausted tape yields zeros.

use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

pub fn fnv(init: u64, bytes: &[u8]) -> u64 {
    let mut h = init ^ 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

/// The source of every choice made by a generator.
pub struct Src {
    pub tape: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    /// The amount of material the case may contain (first draw of the tape).
    pub size: usize,
}

const MAX_TAPE: usize = 60_000;

impl Src {
    pub fn random(seed: u64) -> Self {
        let mut s = Src { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)), size: 0 };
        s.size = s.below(16) as usize;
        s
    }

    pub fn replay(tape: &[u32]) -> Self {
        let mut s = Src { tape: tape.to_vec(), pos: 0, rng: None, size: 0 };
        s.size = s.below(16) as usize;
        s
    }

    pub fn raw(&mut self) -> u32 {
        let v = match &mut self.rng {
            Some(r) if self.pos < MAX_TAPE => {
                let v = (r.next() >> 32) as u32;
                self.tape.push(v);
                v
            }
            Some(_) => 0,
            None => self.tape.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        v
    }

    pub fn consumed(&self) -> usize {
        self.pos.min(self.tape.len())
    }

    /// A number below `n`.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        ((self.raw() as u64) * n) >> 32
    }

    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }

    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }

    /// True with a chance of `num` in `den`; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn coin(&mut self) -> bool {
        self.chance(1, 2)
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }

    /// An index chosen by weight.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w as u64 {
                return i;
            }
            x -= *w as u64;
        }
        unreachable!()
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
}

/// The result of one case.
pub struct Outcome {
    /// A short stable label for the failure, and its details.
    pub fail: Option<(String, String)>,
    pub nontrivial: bool,
    /// Hash of the concrete inputs.
    pub hash: u64,
    pub classes: Vec<&'static str>,
    /// Known findings which this case reproduced.
    pub known: Vec<&'static str>,
    /// The concrete inputs, readable.
    pub show: J,
}

impl Outcome {
    pub fn new() -> Self {
        Outcome { fail: None, nontrivial: false, hash: 0, classes: vec![], known: vec![], show: J::Null }
    }

    pub fn fail(&mut self, kind: impl Into<String>, detail: impl Into<String>) {
        if self.fail.is_none() {
            self.fail = Some((kind.into(), detail.into()));
        }
    }

    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }

    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.class(c);
        }
    }
}

pub type PropFn = fn(&mut Src, &mut Ctx) -> Outcome;

/// What a property needs from its surroundings.
pub struct Ctx {
    pub work: std::path::PathBuf,
    pub stuart: Option<std::path::PathBuf>,
    pub aux: Option<std::path::PathBuf>,
    pub shard: u64,
    pub counter: u64,
    pub thorough: bool,
}

impl Ctx {
    /// A fresh empty directory, replacing the last one.
    pub fn fresh(&mut self) -> std::path::PathBuf {
        let d = self.work.join("case");
        if d.exists() {
            std::fs::remove_dir_all(&d).unwrap();
        }
        std::fs::create_dir_all(&d).unwrap();
        self.counter += 1;
        d
    }
}

fn run_case(f: PropFn, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| f(src, ctx))) {
        Ok(o) => o,
        Err(e) => {
            // Properties catch the panics of the code under test themselves.
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            eprintln!("harness panic: {}", msg);
            std::process::exit(70);
        }
    }
}

pub fn case_seed(seed: u64, prop: &str, shard: u64, index: u64) -> u64 {
    let mut r = Rng::new(fnv(seed.wrapping_mul(0x9e3779b97f4a7c15), prop.as_bytes()));
    let a = r.next();
    let mut r = Rng::new(a ^ (shard << 40) ^ index.wrapping_mul(0xd1342543de82ef95));
    r.next()
}

pub struct RunArgs<'a> {
    pub prop: &'a str,
    pub seed: u64,
    pub shard: u64,
    pub cases: u64,
    pub first: u64,
    pub progress: Option<std::path::PathBuf>,
    pub shrink_budget: u64,
    /// Stop generating after this many seconds.
    pub max_secs: u64,
}

/// Runs a shard. Stops at the first failure, shrinks it and reports it.
pub fn run_shard(f: PropFn, a: &RunArgs, ctx: &mut Ctx) -> J {
    use std::os::unix::fs::FileExt;
    let progress = a.progress.as_ref().map(|p| {
        std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(p).unwrap()
    });
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut nontrivial = 0u64;
    let mut evaluations = 0u64;
    let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut known: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<J> = Vec::new();
    let mut failure = J::Null;
    let start = Instant::now();
    let mut next_sample = 0u64;

    for i in a.first..a.first + a.cases {
        if let Some(p) = &progress {
            p.write_all_at(&i.to_le_bytes(), 0).ok();
        }
        if start.elapsed().as_secs() >= a.max_secs {
            break;
        }
        let mut src = Src::random(case_seed(a.seed, a.prop, a.shard, i));
        let o = run_case(f, &mut src, ctx);
        evaluations += 1;
        if o.nontrivial {
            nontrivial += 1;
            if hashes.insert(o.hash) && evaluations > next_sample && samples.len() < 3 {
                let text = o.show.to_string();
                if text.len() < 3000 {
                    samples.push(o.show.clone());
                    next_sample = evaluations + a.cases / 4;
                }
            }
        }
        for c in &o.classes {
            *classes.entry(c).or_insert(0) += 1;
        }
        for k in &o.known {
            *known.entry(k).or_insert(0) += 1;
        }
        if let Some((kind, detail)) = o.fail {
            let tape = src.tape[..src.consumed()].to_vec();
            let (tape, o2, runs) = shrink(f, tape, &kind, ctx, a.shrink_budget);
            let (k, d) = match &o2 {
                Some(o) => o.fail.clone().unwrap(),
                None => (kind, detail),
            };
            failure = json!({
                "kind": k, "detail": d, "tape": tape, "shard": a.shard, "index": i,
                "case": o2.map(|o| o.show).unwrap_or(o.show), "shrink_runs": runs,
            });
            break;
        }
    }

    json!({
        "evaluations": evaluations, "nontrivial": nontrivial,
        "hashes": hashes.iter().map(|h| format!("{:x}", h)).collect::<Vec<_>>().join(" "),
        "classes": classes, "known": known, "samples": samples, "failure": failure,
        "wall_s": start.elapsed().as_secs_f64(),
    })
}

fn shrink(
    f: PropFn,
    tape: Vec<u32>,
    kind: &str,
    ctx: &mut Ctx,
    budget: u64,
) -> (Vec<u32>, Option<Outcome>, u64) {
    let mut best = tape;
    let mut best_o: Option<Outcome> = None;
    let mut runs = 0u64;
    let t0 = Instant::now();

    let mut attempt = |cand: Vec<u32>, best: &mut Vec<u32>, best_o: &mut Option<Outcome>| -> bool {
        if runs >= budget || t0.elapsed().as_secs() > 40 {
            return false;
        }
        runs += 1;
        let mut src = Src::replay(&cand);
        let o = run_case(f, &mut src, ctx);
        if o.fail.as_ref().map(|(k, _)| k == kind).unwrap_or(false) {
            let mut t = cand;
            t.truncate(src.consumed());
            while t.last() == Some(&0) {
                t.pop();
            }
            *best = t;
            *best_o = Some(o);
            true
        } else {
            false
        }
    };

    // Confirms the failure and trims the tape.
    let b = best.clone();
    attempt(b, &mut best, &mut best_o);

    loop {
        let before = best.clone();
        let mut chunk = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + chunk).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if !attempt(c, &mut best, &mut best_o) {
                    let mut c = best.clone();
                    let end = end.min(c.len());
                    if i < end && c[i..end].iter().any(|x| *x != 0) {
                        c[i..end].iter_mut().for_each(|x| *x = 0);
                        attempt(c, &mut best, &mut best_o);
                    }
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        for i in 0..best.len() {
            let mut lo = 0u64;
            if i >= best.len() {
                break;
            }
            let mut hi = best[i] as u64;
            // Binary search for a small value at this position.
            for _ in 0..12 {
                if lo >= hi || i >= best.len() {
                    break;
                }
                let mid = (lo + hi) / 2;
                let mut c = best.clone();
                c[i] = mid as u32;
                if attempt(c, &mut best, &mut best_o) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
        }
        if best == before || best.is_empty() {
            break;
        }
    }
    let _ = &mut attempt;
    (best, best_o, runs)
}

/// Runs a closure which calls the code under test, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}
