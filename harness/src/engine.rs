use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// Random number generation (splitmix64), used only to extend the tape
// ---------------------------------------------------------------------------------------------
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x1000_0000_01b3))
}

/// How a case ends early.
#[derive(Debug, Clone)]
pub enum Stop {
    /// The generated input is outside of the property's domain.
    Discard(&'static str),
    /// The property is violated.
    Fail(String),
}

pub type Res = Result<(), Stop>;

impl From<&str> for Stop {
    fn from(s: &str) -> Stop {
        Stop::from(s.to_string())
    }
}

impl From<String> for Stop {
    fn from(s: String) -> Self {
        Stop::Fail(s)
    }
}

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::Stop::Fail(format!($($t)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr $(,)?) => { $crate::ensure!($c, "violated: {}", stringify!($c)) };
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::Stop::Fail(format!($($t)*))) } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr $(,)?) => { $crate::ensure_eq!($a, $b, "{}", stringify!($a)) };
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(a == b) {
            return Err($crate::Stop::Fail(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)))
        }
    }};
}

#[macro_export]
macro_rules! discard {
    ($s:expr) => { return Err($crate::Stop::Discard($s)) };
}

/// A single generated case: the source of choices, plus what the case reports about itself.
pub struct Case {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
    max_len: usize,
    nontrivial: bool,
    classes: Vec<&'static str>,
    notes: Vec<String>,
    describe: bool,
    pub thorough: bool,
    /// Meshes have more than a thousand cells, up to this number beyond (if positive)
    pub boost: usize,
    value_unit: Option<f64>,
}

pub struct Dice(u64);

impl Dice {
    pub fn below(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        ((mix(self.0) as u128 * n as u128) >> 64) as u64
    }
    pub fn int(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn sint(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn f64(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * (self.below(1 << 40) as f64 / (1u64 << 40) as f64)
    }
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..n {
            let j = self.int(i, n - 1);
            p.swap(i, j);
        }
        p
    }
    /// `k` different numbers in `0..n`, for small `k`
    pub fn distinct(&mut self, k: usize, n: usize) -> Vec<usize> {
        assert!(k <= n);
        if 4 * k > n {
            let mut p = self.permutation(n);
            p.truncate(k);
            return p;
        }
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        while out.len() < k {
            let i = self.int(0, n - 1);
            if seen.insert(i) {
                out.push(i);
            }
        }
        out
    }
}

impl Case {
    fn random(seed: u64, describe: bool, thorough: bool) -> Self {
        Self {
            tape: Vec::new(),
            pos: 0,
            rng: Some(seed),
            max_len: 4_000_000,
            nontrivial: false,
            classes: vec![],
            notes: vec![],
            describe,
            thorough,
            boost: 0,
            value_unit: None,
        }
    }

    fn from_tape(tape: Vec<u64>, describe: bool, thorough: bool) -> Self {
        let mut c = Self::random(0, describe, thorough);
        c.tape = tape;
        c.rng = None;
        c
    }

    /// A choice in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = if let Some(state) = self.rng.as_mut() {
            assert!(self.tape.len() < self.max_len, "generator consumed too many choices");
            *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let r = mix(*state);
            let v = ((r as u128 * n as u128) >> 64) as u64;
            self.tape.push(v);
            v
        } else {
            // Exhausted tapes continue with the simplest choice
            let v = self.tape.get(self.pos).copied().unwrap_or(0);
            v.min(n - 1)
        };
        self.pos += 1;
        v
    }

    /// An integer in `lo..=hi`, shrinking towards `lo`.
    pub fn int(&mut self, lo: usize, hi: usize) -> usize {
        assert!(lo <= hi);
        lo + self.below((hi - lo + 1) as u64) as usize
    }

    /// An integer in `lo..=hi` (shrinks towards 0 if in the range, positive values preferred)
    pub fn sint(&mut self, lo: i64, hi: i64) -> i64 {
        assert!(lo <= 0 && hi >= 0);
        let n = (hi - lo + 1) as u64;
        let v = self.below(n);
        if v as i64 <= hi {
            v as i64
        } else {
            hi - v as i64
        }
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    /// A size in `0..=max`, all orders of magnitude being equally likely, often next to a power of two
    pub fn size(&mut self, max: usize) -> usize {
        let top = (usize::BITS - max.leading_zeros()) as usize;
        let k = self.int(0, top);
        if k == 0 {
            return 0;
        }
        let base = 1usize << (k - 1);
        let n = match self.int(0, 3) {
            0 => base,
            1 => base + 1,
            _ => base + self.int(0, base - 1),
        };
        n.min(max)
    }

    /// A source of numbers for large inputs, which would make the tape too long. Only its seed is a choice.
    pub fn dice(&mut self) -> Dice {
        Dice(mix(self.below(1 << 20) ^ 0x5bd1_e995))
    }

    /// A power of two by which all values of the case are multiplied, mostly one.
    pub fn value_unit(&mut self) -> f64 {
        if self.value_unit.is_none() {
            let unit = if self.chance(1, 6) { 2f64.powi(self.sint(-120, 120) as i32) } else { 1.0 };
            self.class_if(unit != 1.0, "very small or large values");
            self.note(|| format!("values in units of {:e}", unit));
            self.value_unit = Some(unit);
        }
        self.value_unit.unwrap()
    }

    /// A length scale within the given powers of ten, or (one in eight) in microscopic or astronomic units.
    pub fn length_scale(&mut self, range: f64) -> f64 {
        if self.chance(1, 8) {
            self.magnitude(-9.0, 9.0)
        } else {
            self.magnitude(-range, range)
        }
    }

    /// True with probability `num / den`, shrinking towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u64) as usize;
        &items[i]
    }

    /// Uniform in `[0, 1)`.
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 40) as f64 / (1u64 << 40) as f64
    }

    /// Uniform in `[lo, hi]`, or (one in sixteen) one of the numbers 0, 1, -1 and the ends and the middle of the range.
    /// Shrinks towards 0 when the range contains it, otherwise `lo`.
    pub fn f64(&mut self, lo: f64, hi: f64) -> f64 {
        let w = self.below(1 << 44);
        let v = w & ((1 << 40) - 1);
        if w >> 40 == 15 {
            let inside = |x: f64| lo <= x && x <= hi;
            let choice = match v & 7 {
                0..=3 => 0.0,
                4 => if inside(1.0) { 1.0 } else { -1.0 },
                5 => lo,
                6 => hi,
                _ => lo + 0.5 * (hi - lo),
            };
            return if inside(choice) { choice } else { lo };
        }
        if lo < 0.0 && hi > 0.0 {
            let neg_share = (-lo / (hi - lo)).clamp(0.0, 1.0);
            // even: positive, odd: negative would halve the mass; use the low 10 bits to select the side
            let neg = ((v & 1023) as f64) >= 1024.0 * (1.0 - neg_share);
            let m = (v >> 10) as f64 / (1u64 << 30) as f64;
            if neg {
                lo * m
            } else {
                hi * m
            }
        } else {
            lo + (hi - lo) * (v as f64 / (1u64 << 40) as f64)
        }
    }

    /// A multiple of `1/den` in `[-max/den, max/den]`; exactly representable if den is a power of two.
    pub fn grid(&mut self, max: i64, den: i64) -> f64 {
        self.sint(-max, max) as f64 / den as f64
    }

    /// A float that is on a coarse grid half of the time and otherwise uniform, in `[-r, r]`.
    pub fn coord(&mut self, r: f64) -> f64 {
        if self.bool() {
            self.f64(-r, r)
        } else {
            r * self.sint(-4, 4) as f64 / 4.0
        }
    }

    /// A small number of either sign, down to a few units in the last place of 1: distances at which something is
    /// almost, but not quite, on a node, a face or a boundary.
    pub fn tiny(&mut self) -> f64 {
        let m = 2f64.powi(-(self.int(3, 52) as i32));
        if self.bool() {
            -m
        } else {
            m
        }
    }

    /// Log-uniform positive magnitude in `[10^lo, 10^hi]`, shrinking towards `1` if in the range.
    pub fn magnitude(&mut self, lo: f64, hi: f64) -> f64 {
        let e = if lo < 0.0 && hi > 0.0 { self.f64(lo, hi) } else { lo + (hi - lo) * self.unit() };
        10f64.powf(e)
    }

    pub fn vec<T>(&mut self, n: usize, mut f: impl FnMut(&mut Case) -> T) -> Vec<T> {
        (0..n).map(|_| f(self)).collect()
    }

    /// `n` values in `[-r, r]`, such as the values at the nodes of an element or a mesh: arbitrary, or with many equal ones,
    /// down to all but one or two (or all) of them
    pub fn values(&mut self, n: usize, r: f64) -> Vec<f64> {
        match self.int(0, 5) {
            4 => {
                let vals = self.vec(3, |c| c.f64(-r, r));
                self.vec(n, |c| *c.pick(&vals))
            }
            5 => {
                let mut v = if self.bool() { vec![0.0; n] } else { vec![self.f64(-r, r); n] };
                for _ in 0..self.int(0, 2).min(n) {
                    let i = self.int(0, n - 1);
                    v[i] = self.f64(-r, r);
                }
                v
            }
            _ => self.vec(n, |c| c.f64(-r, r)),
        }
    }

    /// Random permutation of `0..n`, shrinking towards the identity.
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..n {
            let j = self.int(i, n - 1);
            p.swap(i, j);
        }
        p
    }

    /// `k` distinct values in `0..n` in random order.
    pub fn distinct(&mut self, k: usize, n: usize) -> Vec<usize> {
        assert!(k <= n);
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..k {
            let j = self.int(i, n - 1);
            p.swap(i, j);
        }
        p.truncate(k);
        p
    }

    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }

    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.classes.push(c);
        }
    }

    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    pub fn nontrivial_if(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }

    /// Adds to the human readable description of the case.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            self.notes.push(f());
        }
    }

    pub fn note_debug(&mut self, label: &str, v: &dyn Debug) {
        if self.describe {
            self.notes.push(format!("{} = {:?}", label, v));
        }
    }
}

pub struct Clause {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case) -> Res,
}

pub const fn clause(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Case) -> Res) -> Clause {
    Clause { name, quick, thorough, f }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub clauses: Vec<Clause>,
}

// ---------------------------------------------------------------------------------------------
// Panics
// ---------------------------------------------------------------------------------------------
thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    static QUIET: Cell<bool> = Cell::new(true);
}
/// Panics on other threads than the one running the case (e.g. rayon workers)
static OTHER_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(non-string panic)".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg.clone(), loc.clone())));
        if let Ok(mut o) = OTHER_PANIC.lock() {
            *o = Some((msg, loc));
        }
    }));
}

#[derive(Debug, Clone)]
pub struct Panicked {
    pub message: String,
    pub location: String,
}

/// Runs the closure, turning a panic into a value. For use where the contract says "panics if ..."
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|payload| {
        let recorded = LAST_PANIC.with(|p| p.borrow_mut().take());
        match recorded {
            Some((message, location)) => Panicked { message, location },
            None => {
                let message = payload
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| payload.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Panicked { message, location: "(other thread)".into() }
            }
        }
    })
}

fn run_case(f: fn(&mut Case) -> Res, case: &mut Case) -> Res {
    match catch(|| f(case)) {
        Ok(r) => r,
        Err(p) => Err(Stop::Fail(format!("panicked at {}: {}", p.location, p.message))),
    }
}

// ---------------------------------------------------------------------------------------------
// Shrinking
// ---------------------------------------------------------------------------------------------
fn tape_less(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

fn shrink(f: fn(&mut Case) -> Res, tape: Vec<u64>, msg: String, thorough: bool, budget: usize) -> (Vec<u64>, String, usize) {
    let mut best = tape;
    let mut best_msg = msg;
    let mut evals = 0usize;
    let deadline = Instant::now() + Duration::from_secs(60);

    // Returns true if the candidate fails as well and is simpler
    fn attempt(
        f: fn(&mut Case) -> Res,
        cand: Vec<u64>,
        best: &mut Vec<u64>,
        best_msg: &mut String,
        evals: &mut usize,
        thorough: bool,
    ) -> bool {
        *evals += 1;
        let mut c = Case::from_tape(cand.clone(), false, thorough);
        if let Err(Stop::Fail(m)) = run_case(f, &mut c) {
            let mut t = cand;
            t.truncate(c.pos);
            if tape_less(&t, best) {
                *best = t;
                *best_msg = m;
                return true;
            }
        }
        false
    }

    loop {
        let before = best.clone();
        // Delete blocks
        let mut k = (best.len() / 2).max(1).min(256);
        while k >= 1 {
            let mut i = best.len();
            while i > 0 && evals < budget && Instant::now() < deadline {
                i = i.saturating_sub(k);
                if i + k <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(i..i + k);
                    if attempt(f, cand, &mut best, &mut best_msg, &mut evals, thorough) {
                        continue;
                    }
                    // Deleting elements usually requires lowering a preceding length
                    for back in 1..=3usize {
                        if i >= back && best[i - back] > 0 && i + k <= best.len() {
                            let mut cand = best.clone();
                            cand.drain(i..i + k);
                            cand[i - back] -= 1;
                            if attempt(f, cand, &mut best, &mut best_msg, &mut evals, thorough) {
                                break;
                            }
                        }
                    }
                }
            }
            k /= 2;
        }
        // Zero blocks
        for k in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() && evals < budget && Instant::now() < deadline {
                let hi = (i + k).min(best.len());
                if best[i..hi].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..hi].iter_mut().for_each(|v| *v = 0);
                    attempt(f, cand, &mut best, &mut best_msg, &mut evals, thorough);
                }
                i += k;
            }
        }
        // Lower individual choices by bisection
        let mut i = 0;
        while i < best.len() && evals < budget && Instant::now() < deadline {
            let (mut lo, mut hi) = (0u64, best[i]);
            let mut steps = 0;
            while lo < hi && steps < 24 && evals < budget && i < best.len() {
                steps += 1;
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if attempt(f, cand, &mut best, &mut best_msg, &mut evals, thorough) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || evals >= budget || Instant::now() >= deadline {
            break;
        }
    }
    (best, best_msg, evals)
}

// ---------------------------------------------------------------------------------------------
// Driver
// ---------------------------------------------------------------------------------------------
#[derive(Default)]
struct Stats {
    evaluations: u64,
    discards: BTreeMap<&'static str, u64>,
    classes: BTreeMap<&'static str, u64>,
    nontrivial: u64,
    distinct: HashSet<u64>,
    samples: BTreeMap<u64, Vec<String>>,
}

struct Failure {
    idx: u64,
    tape: Vec<u64>,
    msg: String,
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

const HANG_MS: u64 = 120_000;

/// A replay file that identifies the case by its seed (for cases that do not return)
fn write_seed_replay(prop: &str, clause: &str, case_seed: u64, thorough: bool, msg: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", prop, clause));
    let data = serde_json::json!({
        "property": prop, "clause": clause, "case_seed": case_seed.to_string(), "thorough": thorough, "message": msg,
        "replay_cmd": format!("./check {} --replay {}", prop, path.display()),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&data).unwrap());
    path
}

fn tape_hash(clause: &str, tape: &[u64]) -> u64 {
    tape.iter().fold(hash_str(clause), |h, v| mix(h ^ *v))
}

fn run_clause(prop: &str, cl: &Clause, cases: u64, seed: u64, thorough: bool) -> (Stats, Option<Failure>) {
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let merged = Mutex::new(Stats::default());
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let threads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let base = mix(seed ^ mix(hash_str(prop)) ^ mix(hash_str(cl.name)).rotate_left(17));
    let progress: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let done = std::sync::atomic::AtomicBool::new(false);
    let case_log = std::env::var("PBT_CASELOG").is_ok();
    let start = Instant::now();

    std::thread::scope(|s| {
        // Watchdog: a case that does not come back
        s.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                let now = start.elapsed().as_millis() as u64;
                for (idx, t) in &progress {
                    let t0 = t.load(Ordering::Relaxed);
                    if t0 != 0 && now > t0 + HANG_MS {
                        let idx = idx.load(Ordering::Relaxed);
                        let msg = format!("case {} did not return within {} s (cases take milliseconds)", idx, HANG_MS / 1000);
                        let path = write_seed_replay(prop, cl.name, mix(base ^ mix(idx)), thorough, &msg);
                        println!("  {}", msg);
                        println!("VIOLATION property={} replay={}", prop, path.display());
                        std::process::exit(1);
                    }
                }
            }
        });
        let handles: Vec<_> = (0..threads)
            .map(|ti| {
                let (next, min_fail, merged, failures, progress) = (&next, &min_fail, &merged, &failures, &progress);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut st = Stats::default();
                        loop {
                            let idx = next.fetch_add(1, Ordering::SeqCst);
                            if idx >= cases || idx > min_fail.load(Ordering::SeqCst) {
                                break;
                            }
                            progress[ti].0.store(idx, Ordering::Relaxed);
                            progress[ti].1.store((start.elapsed().as_millis() as u64).max(1), Ordering::Relaxed);
                            if case_log {
                                write_seed_replay(prop, cl.name, mix(base ^ mix(idx)), thorough, "the process died in this case");
                                println!("CASE {}-{}", prop, cl.name);
                            }
                            let mut c = Case::random(mix(base ^ mix(idx)), idx < 40, thorough);
                            let r = run_case(cl.f, &mut c);
                            progress[ti].1.store(0, Ordering::Relaxed);
                            st.evaluations += 1;
                            for k in c.classes.iter() {
                                *st.classes.entry(k).or_default() += 1;
                            }
                            match r {
                                Ok(()) => {
                                    if c.nontrivial {
                                        st.nontrivial += 1;
                                        st.distinct.insert(tape_hash(cl.name, &c.tape));
                                        if idx < 40 && !c.notes.is_empty() {
                                            st.samples.insert(idx, c.notes);
                                        }
                                    }
                                }
                                Err(Stop::Discard(why)) => *st.discards.entry(why).or_default() += 1,
                                Err(Stop::Fail(msg)) => {
                                    min_fail.fetch_min(idx, Ordering::SeqCst);
                                    failures.lock().unwrap().push(Failure { idx, tape: c.tape, msg });
                                }
                            }
                        }
                        let mut m = merged.lock().unwrap();
                        m.evaluations += st.evaluations;
                        m.nontrivial += st.nontrivial;
                        for (k, v) in st.discards {
                            *m.discards.entry(k).or_default() += v;
                        }
                        for (k, v) in st.classes {
                            *m.classes.entry(k).or_default() += v;
                        }
                        m.distinct.extend(st.distinct);
                        m.samples.extend(st.samples);
                    })
                    .unwrap()
            })
            .collect();
        for h in handles {
            h.join().unwrap();
        }
        done.store(true, Ordering::Relaxed);
    });

    let mut fs = failures.into_inner().unwrap();
    fs.sort_by_key(|f| f.idx);
    let first = if fs.is_empty() { None } else { Some(fs.swap_remove(0)) };
    (merged.into_inner().unwrap(), first)
}

fn truncated(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut end = n;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        format!("{}… ({} characters)", &s[..end], s.len())
    }
}

/// Whether /verif/known-findings.txt lists this failure. It is reported once per run.
pub fn known_finding(property: &str, key: &str) -> bool {
    static SEEN: Mutex<Vec<(String, Option<String>)>> = Mutex::new(vec![]);
    let mut seen = SEEN.lock().unwrap();
    let name = format!("property={} key={}", property, key);
    if let Some(e) = seen.iter().find(|e| e.0 == name) {
        return e.1.is_some();
    }
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let prefix = format!("open: {} ", name);
    let what = text.lines().find_map(|l| l.strip_prefix(&prefix)).map(|s| s.to_string());
    if let Some(w) = &what {
        println!("KNOWN-FINDING: property={} {}", property, w);
    }
    let found = what.is_some();
    seen.push((name, what));
    found
}

pub fn main(prop: Property) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();

    if let Some(path) = opt("--replay") {
        let data: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&path).expect("cannot read replay file")).expect("bad replay file");
        let name = data["clause"].as_str().unwrap();
        let cl = prop.clauses.iter().find(|c| c.name == name).expect("unknown clause");
        let thorough = data["thorough"].as_bool().unwrap_or(false);
        let mut c = if let Some(s) = data["case_seed"].as_str() {
            Case::random(s.parse().unwrap(), true, thorough)
        } else {
            let tape: Vec<u64> = data["tape"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect();
            Case::from_tape(tape, true, thorough)
        };
        let r = run_case(cl.f, &mut c);
        for n in &c.notes {
            println!("  {}", n);
        }
        match r {
            Err(Stop::Fail(m)) => {
                println!("{}", m);
                println!("VIOLATION property={} replay={}", prop.id, path);
                std::process::exit(1);
            }
            Err(Stop::Discard(w)) => println!("discarded: {}", w),
            Ok(()) => println!("passes"),
        }
        std::process::exit(0);
    }

    let only = opt("--clause");
    let scale: f64 = opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let t0 = Instant::now();
    let mut evaluations = 0;
    let mut distinct = 0;
    let mut samples = vec![];
    let mut per_clause = serde_json::Map::new();
    let mut violations: Vec<String> = vec![];
    let mut vacuous: Vec<String> = vec![];

    for cl in &prop.clauses {
        if let Some(o) = &only {
            if o != cl.name {
                continue;
            }
        }
        let n = (((if thorough { cl.thorough } else { cl.quick }) as f64) * scale).ceil() as u64;
        let tc = Instant::now();
        let (st, failure) = run_clause(prop.id, cl, n, seed, thorough);
        evaluations += st.evaluations;
        distinct += st.distinct.len() as u64;
        let mut class_map = serde_json::Map::new();
        for (k, v) in &st.classes {
            class_map.insert(k.to_string(), (*v).into());
        }
        let mut disc_map = serde_json::Map::new();
        for (k, v) in &st.discards {
            disc_map.insert(k.to_string(), (*v).into());
        }
        per_clause.insert(
            cl.name.to_string(),
            serde_json::json!({
                "evaluations": st.evaluations,
                "nontrivial": st.nontrivial,
                "distinct_nontrivial": st.distinct.len(),
                "discarded": disc_map,
                "classes": class_map,
                "wall_s": (tc.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            }),
        );
        for (_, notes) in st.samples.iter().take(2) {
            let text: Vec<String> = notes.iter().map(|n| truncated(n, 600)).collect();
            samples.push(serde_json::json!({"clause": cl.name, "case": text}));
        }
        println!(
            "{} {:<34} {:>8} cases {:>8} distinct non-trivial {:>6} discarded  {:.1} s",
            prop.id,
            cl.name,
            st.evaluations,
            st.distinct.len(),
            st.discards.values().sum::<u64>(),
            tc.elapsed().as_secs_f64()
        );
        if failure.is_none() && st.distinct.is_empty() {
            vacuous.push(cl.name.to_string());
        }
        if let Some(f) = failure {
            println!("  case {} failed: {}", f.idx, truncated(&f.msg, 2000));
            let (tape, msg, evals) = shrink(cl.f, f.tape, f.msg, thorough, 4000);
            let mut c = Case::from_tape(tape.clone(), true, thorough);
            let _ = run_case(cl.f, &mut c);
            println!("  shrunk ({} evaluations) to: {}", evals, truncated(&msg, 3000));
            for note in &c.notes {
                println!("    {}", truncated(note, 2000));
            }
            let dir = verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}.json", prop.id, cl.name));
            let data = serde_json::json!({
                "property": prop.id, "clause": cl.name, "seed": seed, "case": f.idx, "thorough": thorough,
                "message": msg, "input": c.notes, "tape": tape,
                "replay_cmd": format!("./check {} --replay {}", prop.id, path.display()),
            });
            std::fs::write(&path, serde_json::to_string_pretty(&data).unwrap()).expect("cannot write replay file");
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            violations.push(cl.name.to_string());
        }
    }

    let evidence = serde_json::json!({
        "property": prop.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": prop.rule,
            "samples": samples,
            "clauses": per_clause,
        },
        "assumptions": prop.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations.len(),
    });
    if only.is_none() {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&evidence).unwrap())
            .expect("cannot write evidence");
    }
    if !violations.is_empty() {
        std::process::exit(1);
    }
    if !vacuous.is_empty() && scale >= 1.0 {
        println!("ERROR property={} clauses without a single non-trivial case: {:?}", prop.id, vacuous);
        std::process::exit(2);
    }
    println!("OK property={} {} cases, {} distinct non-trivial, {:.1} s", prop.id, evaluations, distinct, t0.elapsed().as_secs_f64());
    std::process::exit(0);
}
