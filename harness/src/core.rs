//! Case runner: seeded cases, panic capture, CPU-time watchdog, coverage accounting.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            *v = mix(z);
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// Uniform in [0,1).
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }
    /// Log-uniform in [lo,hi].
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 {
        (self.uni(lo.ln(), hi.ln())).exp()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn sign(&mut self) -> f64 {
        if self.u64() & 1 == 0 {
            1.0
        } else {
            -1.0
        }
    }
    pub fn gauss(&mut self) -> f64 {
        let u = self.f().max(1e-300);
        let v = self.f();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
}

#[derive(Default)]
pub struct Cov {
    pub evals: u64,
    pub cases: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: BTreeSet<u64>,
    pub samples: Vec<String>,
    /// Largest observed error/tolerance ratio per named comparison.
    pub worst: BTreeMap<String, f64>,
}

impl Cov {
    pub fn merge(&mut self, o: Cov) {
        self.evals += o.evals;
        self.cases += o.cases;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        for (k, v) in o.worst {
            let e = self.worst.entry(k).or_insert(0.0);
            if v > *e {
                *e = v;
            }
        }
    }
}

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub cov: &'a mut Cov,
    pub trace: bool,
}

pub type Res = Result<(), String>;

impl<'a> Case<'a> {
    /// Count an observed event class.
    pub fn hit(&mut self, k: &str) {
        if let Some(v) = self.cov.counters.get_mut(k) {
            *v += 1;
        } else {
            self.cov.counters.insert(k.to_string(), 1);
        }
    }
    /// Record a distinct non-trivial situation.
    pub fn seen(&mut self, h: u64) {
        if self.cov.distinct.len() < 400_000 {
            self.cov.distinct.insert(mix(h));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.cov.samples.len() < 3 {
            let s = f();
            self.cov.samples.push(s);
        }
    }
    /// Monitor a condition.
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) -> Res {
        self.cov.evals += 1;
        if ok {
            Ok(())
        } else {
            Err(msg())
        }
    }
    /// Monitor |got - want| <= tol.
    pub fn close(&mut self, what: &str, got: f64, want: f64, tol: f64) -> Res {
        self.cov.evals += 1;
        let e = (got - want).abs();
        if tol > 0.0 && e.is_finite() {
            let r = e / tol;
            if r > 0.0 {
                match self.cov.worst.get_mut(what) {
                    Some(w) => {
                        if r > *w {
                            *w = r
                        }
                    }
                    None => {
                        self.cov.worst.insert(what.to_string(), r);
                    }
                }
            }
        }
        if e <= tol {
            Ok(())
        } else {
            Err(format!("{what}: got {got:?}, expected {want:?} within {tol:e}"))
        }
    }
}

pub struct Stratum {
    pub name: &'static str,
    pub f: fn(&mut Case) -> Res,
    pub quick: u64,
    pub thorough: u64,
    /// Event classes that must have been observed at least once.
    pub need: &'static [&'static str],
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub stratum: String,
    pub idx: u64,
    pub msg: String,
}

#[derive(Default)]
pub struct Outcome {
    pub cov: Cov,
    pub strata: Vec<(String, u64)>,
    pub violations: Vec<Violation>,
    pub internal: Vec<String>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum CaseEnd {
    Ok,
    Violation(String),
    Internal(String),
}

pub fn case_seed(seed: u64, prop: &str, stratum: &str, idx: u64) -> u64 {
    mix(mix(mix(seed) ^ hash_str(prop)) ^ hash_str(stratum)).wrapping_add(mix(idx))
}

pub fn run_case(seed: u64, prop: &str, st: &Stratum, idx: u64, thorough: bool, cov: &mut Cov, trace: bool) -> CaseEnd {
    cov.cases += 1;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut c = Case { rng: Rng::new(case_seed(seed, prop, st.name, idx)), idx, thorough, cov, trace };
        (st.f)(&mut c)
    }));
    match r {
        Ok(Ok(())) => CaseEnd::Ok,
        Ok(Err(m)) => CaseEnd::Violation(m),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") || loc.contains("/verif/") {
                CaseEnd::Internal(format!("harness panic at {loc}: {msg}"))
            } else {
                CaseEnd::Violation(format!("library panicked at {loc}: {msg}"))
            }
        }
    }
}

#[cfg(not(miri))]
fn thread_cpu(tid: u64) -> f64 {
    // Linux per-thread CPU clock id for a kernel thread id.
    let clk = ((!(tid as i32)) << 3) | 6;
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 {
            return 0.0;
        }
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

pub const HANG_CPU_S: f64 = 60.0;

struct Slot {
    stratum: AtomicU64,
    idx: AtomicU64,
    serial: AtomicU64,
    tid: AtomicU64,
}

pub struct RunCfg {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub scale: f64,
    pub max_cases: u64,
    pub only: Option<String>,
}

/// Called with the violation when a case burns more CPU than HANG_CPU_S; must not return.
pub type HangFn = fn(&str, Violation) -> !;

pub fn run_prop(prop: &'static str, strata: &[Stratum], cfg: &RunCfg, hang: HangFn) -> Outcome {
    let mut out = Outcome::default();
    let nthreads = cfg.threads.max(1);
    // Work list: blocks of consecutive case indices.
    let mut blocks: Vec<(usize, u64, u64)> = Vec::new();
    for (si, st) in strata.iter().enumerate() {
        if let Some(o) = &cfg.only {
            if o != st.name {
                continue;
            }
        }
        let base = if cfg.thorough { st.thorough } else { st.quick };
        let mut n = ((base as f64 * cfg.scale).ceil() as u64).max(1).min(cfg.max_cases);
        if base == 0 {
            n = 0;
        }
        out.strata.push((st.name.to_string(), n));
        let step = (n / (nthreads as u64 * 4)).clamp(1, 4096);
        let mut i = 0;
        while i < n {
            let e = (i + step).min(n);
            blocks.push((si, i, e));
            i = e;
        }
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let viol: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
    let internal: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let cov: Mutex<Cov> = Mutex::new(Cov::default());
    let slots: Vec<Slot> = (0..nthreads)
        .map(|_| Slot { stratum: AtomicU64::new(0), idx: AtomicU64::new(0), serial: AtomicU64::new(0), tid: AtomicU64::new(0) })
        .collect();

    std::thread::scope(|s| {
        #[cfg(not(miri))]
        {
            let slots = &slots;
            let done = &done;
            s.spawn(move || {
                let mut seen: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); slots.len()];
                while !done.load(Ordering::Acquire) {
                    std::thread::sleep(std::time::Duration::from_millis(50));
                    for (k, sl) in slots.iter().enumerate() {
                        let tid = sl.tid.load(Ordering::Acquire);
                        if tid == 0 {
                            continue;
                        }
                        let ser = sl.serial.load(Ordering::Acquire);
                        let cpu = thread_cpu(tid);
                        if seen[k].0 != ser {
                            seen[k] = (ser, cpu);
                        } else if cpu - seen[k].1 > HANG_CPU_S && sl.tid.load(Ordering::Acquire) == tid {
                            let st = &strata[sl.stratum.load(Ordering::Acquire) as usize];
                            let idx = sl.idx.load(Ordering::Acquire);
                            hang(prop, Violation { stratum: st.name.to_string(), idx, msg: format!("a single case used more than {HANG_CPU_S} s of CPU time: the library does not terminate") });
                        }
                    }
                }
            });
        }
        let mut hs = Vec::new();
        for k in 0..nthreads {
            let (slots, next, stop, viol, internal, cov, blocks) = (&slots, &next, &stop, &viol, &internal, &cov, &blocks);
            let b = std::thread::Builder::new().stack_size(16 << 20);
            hs.push(
                b.spawn_scoped(s, move || {
                    let mut my = Cov::default();
                    #[cfg(not(miri))]
                    slots[k].tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as u64, Ordering::Release);
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let b = next.fetch_add(1, Ordering::Relaxed) as usize;
                        if b >= blocks.len() {
                            break;
                        }
                        let (si, lo, hi) = blocks[b];
                        let st = &strata[si];
                        slots[k].stratum.store(si as u64, Ordering::Release);
                        for idx in lo..hi {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            slots[k].idx.store(idx, Ordering::Release);
                            slots[k].serial.fetch_add(1, Ordering::AcqRel);
                            match run_case(cfg.seed, prop, st, idx, cfg.thorough, &mut my, false) {
                                CaseEnd::Ok => {}
                                CaseEnd::Violation(m) => {
                                    let mut v = viol.lock().unwrap();
                                    v.push(Violation { stratum: st.name.to_string(), idx, msg: m });
                                    if v.len() >= 8 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                    break;
                                }
                                CaseEnd::Internal(m) => {
                                    internal.lock().unwrap().push(format!("{}#{}: {}", st.name, idx, m));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        slots[k].serial.fetch_add(1, Ordering::AcqRel);
                    }
                    slots[k].tid.store(0, Ordering::Release);
                    cov.lock().unwrap().merge(my);
                })
                .unwrap(),
            );
        }
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Release);
    });
    out.cov = cov.into_inner().unwrap();
    out.violations = viol.into_inner().unwrap();
    out.violations.sort_by(|a, b| (&a.stratum, a.idx).cmp(&(&b.stratum, b.idx)));
    out.internal = internal.into_inner().unwrap();
    out
}

pub fn jesc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
