//! One simulated run: a case executed in its own forked process.
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simos::sched::{self, Policy, Stop};
use simos::{Injected, Plan};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub property: String,
    pub seed: u64,
    pub spec: Value,
    #[serde(default)]
    pub faults: Option<Vec<Injected>>,
    #[serde(default)]
    pub schedule: Option<Vec<Vec<(u64, usize)>>>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub key: String,
    pub msg: String,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub faults: Vec<Injected>,
    pub schedule: Vec<Vec<(u64, usize)>>,
    pub trace: u64,
    pub shape: u64,
    pub counts: BTreeMap<String, u64>,
    pub ops: u64,
    pub points: u64,
    pub sim_ns: u64,
    pub nontrivial: bool,
    pub feats: Vec<String>,
    pub harness: Option<String>,
    #[serde(default)]
    pub log: Vec<String>,
}

// ---- allocation limits -------------------------------------------------------------------------
pub struct Alloc;
pub static ALLOC_LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static LIVE_LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static OUT_FD: AtomicI32 = AtomicI32::new(-1);
fn refuse(n: usize) -> bool {
    if n > ALLOC_LIMIT.load(Ordering::Relaxed) || LIVE.load(Ordering::Relaxed).saturating_add(n) > LIVE_LIMIT.load(Ordering::Relaxed) {
        let fd = OUT_FD.load(Ordering::Relaxed);
        if fd >= 0 {
            let mut b = *b"A                     \n";
            let mut v = n;
            let mut i = 20;
            loop {
                b[i] = b'0' + (v % 10) as u8;
                v /= 10;
                i -= 1;
                if v == 0 || i < 2 {
                    break;
                }
            }
            simos::raw::write_all(fd, &b);
        }
        return true;
    }
    false
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(l.size(), Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(l.size(), Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && refuse(n) {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(n, Ordering::Relaxed);
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
/// limit a single request and the total held from here on
pub fn limit_memory(single: usize, extra: usize) {
    ALLOC_LIMIT.store(single, Ordering::Relaxed);
    LIVE_LIMIT.store(LIVE.load(Ordering::Relaxed) + extra, Ordering::Relaxed);
}
pub fn unlimit_memory() {
    ALLOC_LIMIT.store(usize::MAX, Ordering::Relaxed);
    LIVE_LIMIT.store(usize::MAX, Ordering::Relaxed);
}

// ---- violations --------------------------------------------------------------------------------
static VIOL: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
static FEATS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
static HARNESS: Mutex<Option<String>> = Mutex::new(None);
pub fn fail(key: &str, msg: String) {
    simos::without(|| {
        let mut v = VIOL.lock().unwrap();
        if v.len() < 20 && !v.iter().any(|x| x.key == key) {
            v.push(Violation { key: key.into(), msg });
        }
    })
}
pub fn failed() -> bool {
    simos::without(|| !VIOL.lock().unwrap().is_empty())
}
/// a feature this run exercised (makes the run non-trivial and is counted in the evidence)
pub fn feat(f: &str) {
    simos::without(|| {
        let mut v = FEATS.lock().unwrap();
        if !v.iter().any(|x| x == f) {
            v.push(f.into())
        }
    })
}
pub fn harness_error(m: String) {
    simos::without(|| {
        let mut h = HARNESS.lock().unwrap();
        if h.is_none() {
            *h = Some(m)
        }
    })
}
fn short_loc(f: &str) -> String {
    if let Some(i) = f.find("/repo/") {
        return f[i + 6..].to_string();
    }
    if let Some(i) = f.find("/src/") {
        let head = &f[..i];
        let krate = head.rsplit('/').next().unwrap_or("");
        return format!("{}{}", krate, &f[i..]);
    }
    f.to_string()
}
pub fn squash(m: &str) -> String {
    // drop the numbers so that the key names the kind of failure, not the instance
    let mut s = String::new();
    let mut d = false;
    let mut hex = false;
    for c in m.chars().take(120) {
        if c == 'x' && s.ends_with('N') {
            hex = true;
        } else if !c.is_ascii_hexdigit() {
            hex = false;
        }
        if c.is_ascii_digit() || (hex && c != 'x') {
            if !d {
                s.push('N');
            }
            d = true;
        } else {
            d = false;
            s.push(if c == '\n' { ' ' } else { c });
        }
    }
    s
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        simos::without(|| {
            let fd = OUT_FD.load(Ordering::Relaxed);
            if fd >= 0 {
                let l = format!("P {}\n", serde_json::to_string(&(loc.clone(), msg.clone())).unwrap());
                simos::raw::write_all(fd, l.as_bytes());
            } else {
                eprintln!("panic at {}: {}", loc, msg);
            }
            PANICS.lock().unwrap().push((loc, msg));
        })
    }));
}
pub fn panic_violation(loc: &str, msg: &str) -> Result<Violation, String> {
    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    if (file.starts_with("src/") || file.starts_with("simos/")) && !loc.contains("/repo/") {
        return Err(format!("harness panic at {}: {}", loc, msg));
    }
    Ok(Violation { key: format!("panic {} {}", short_loc(file), squash(msg)), msg: format!("panic at {}: {}", loc, msg) })
}
/// call into the code under test; a panic becomes a violation and None
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(_) => {
            note_panic();
            None
        }
    }
}
fn note_panic() {
    simos::without(|| {
        let p = PANICS.lock().unwrap().pop();
        match p {
            Some((l, m)) => match panic_violation(&l, &m) {
                Ok(v) => fail(&v.key, v.msg),
                Err(h) => harness_error(h),
            },
            None => harness_error("panic without a record".into()),
        }
    })
}

// ---- context -----------------------------------------------------------------------------------
pub struct Ctx {
    pub case: Case,
    pub schedule: Vec<Vec<(u64, usize)>>,
    pub points: u64,
    pub hash: u64,
    pub point_limit: u64,
}
impl Ctx {
    pub fn seed(&self) -> u64 {
        self.case.seed
    }
    /// run one simulated thread to its end
    pub fn single(&mut self, f: impl FnOnce() + Send + 'static) -> Stop {
        self.multi(Policy::Random(0), vec![Box::new(f)])
    }
    pub fn multi(&mut self, policy: Policy, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Stop {
        let k = self.schedule.len();
        let policy = match &self.case.schedule {
            Some(s) => Policy::Replay(s.get(k).cloned().unwrap_or_default()),
            None => policy,
        };
        let wrapped: Vec<Box<dyn FnOnce() + Send>> = bodies
            .into_iter()
            .map(|b| {
                Box::new(move || {
                    if catch_unwind(AssertUnwindSafe(b)).is_err() {
                        note_panic();
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let r = sched::run(policy, simos::prng::mix(self.case.seed, k as u64), self.point_limit, wrapped);
        self.points += r.points;
        self.hash = simos::prng::mix(self.hash, r.hash);
        self.schedule.push(r.switches);
        r.stop
    }
    /// the run has to end by itself
    pub fn must_finish(&mut self, what: &str, s: &Stop) -> bool {
        match s {
            Stop::Done => true,
            Stop::Crash => true,
            Stop::OpLimit => {
                fail(&format!("hang {}", what), format!("{} did not finish within the step limit", what));
                false
            }
            Stop::Deadlock(d) => {
                fail(&format!("deadlock {}", what), format!("{}: nobody can run: {}", what, d));
                false
            }
        }
    }
}
pub fn plan(seed: u64) -> Plan {
    Plan { seed, ..Default::default() }
}

pub type RunFn = fn(&mut Ctx, &Value);

fn execute(case: &Case, run: RunFn, log: bool) -> Outcome {
    simos::reset(case.seed, case.faults.clone(), log);
    let t0 = simos::sim().clock_ns;
    let mut ctx = Ctx { case: case.clone(), schedule: vec![], points: 0, hash: 0, point_limit: 20_000_000 };
    let spec = case.spec.clone();
    let r = catch_unwind(AssertUnwindSafe(|| run(&mut ctx, &spec)));
    if r.is_err() {
        note_panic();
    }
    let s = simos::sim();
    let feats = FEATS.lock().unwrap().clone();
    Outcome {
        violations: VIOL.lock().unwrap().clone(),
        faults: s.injected.clone(),
        schedule: ctx.schedule,
        trace: simos::prng::mix(s.trace, ctx.hash),
        shape: 0,
        counts: s.counts.clone(),
        ops: s.total_ops,
        points: ctx.points,
        sim_ns: s.clock_ns - t0,
        nontrivial: !feats.is_empty(),
        feats,
        harness: HARNESS.lock().unwrap().clone(),
        log: s.log.take().unwrap_or_default(),
    }
}

fn rlim(res: u32, soft: u64, hard: u64) {
    unsafe {
        let r = libc::rlimit { rlim_cur: soft, rlim_max: hard };
        libc::setrlimit(res as _, &r);
    }
}
/// for runs whose simulated data is gigabytes large
pub fn long_run() {
    rlim(libc::RLIMIT_CPU as u32, 120, 125);
}
/// run the case in a forked process
pub fn run_forked(case: &Case, run: RunFn, log: bool) -> Outcome {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(p[0]);
            OUT_FD.store(p[1], Ordering::Relaxed);
            rlim(libc::RLIMIT_CORE as u32, 0, 0);
            rlim(libc::RLIMIT_CPU as u32, 20, 125);
            let o = execute(case, run, log);
            unlimit_memory();
            OUT_FD.store(-1, Ordering::Relaxed);
            let l = format!("R {}\n", serde_json::to_string(&o).unwrap());
            simos::raw::write_all(p[1], l.as_bytes());
            simos::raw::exit_now(0);
        }
        libc::close(p[1]);
        let mut buf: Vec<u8> = vec![];
        let mut tmp = [0u8; 65536];
        let t0 = std::time::Instant::now();
        let mut timed_out = false;
        loop {
            let mut pf = libc::pollfd { fd: p[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut pf, 1, 1000);
            if r > 0 {
                let n = libc::read(p[0], tmp.as_mut_ptr() as *mut _, tmp.len());
                if n <= 0 {
                    break;
                }
                buf.extend_from_slice(&tmp[..n as usize]);
            }
            if t0.elapsed().as_secs() > 240 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
        }
        libc::close(p[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let text = String::from_utf8_lossy(&buf);
        let mut last_panic: Option<(String, String)> = None;
        let mut alloc: Option<String> = None;
        for l in text.lines() {
            if let Some(x) = l.strip_prefix("R ") {
                if let Ok(o) = serde_json::from_str::<Outcome>(x) {
                    return o;
                }
            } else if let Some(x) = l.strip_prefix("P ") {
                last_panic = serde_json::from_str(x).ok();
            } else if let Some(x) = l.strip_prefix("A ") {
                alloc = Some(x.trim().to_string());
            }
        }
        let mut o = Outcome { nontrivial: true, ..Default::default() };
        if timed_out {
            o.harness = Some("wall-clock limit".into());
        } else if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            let v = if sig == libc::SIGXCPU || sig == libc::SIGKILL {
                if sig == libc::SIGKILL {
                    o.harness = Some("killed".into());
                }
                Violation { key: "hang".into(), msg: "the call used 20 s of processor time without returning".into() }
            } else if let Some(n) = alloc {
                Violation { key: "allocation".into(), msg: format!("a request for {} bytes of memory, out of proportion to the input, ended the process", n) }
            } else if let Some((l, m)) = last_panic {
                match panic_violation(&l, &m) {
                    Ok(v) => Violation { key: format!("abort {}", v.key), msg: format!("process aborted: {}", v.msg) },
                    Err(h) => {
                        o.harness = Some(h);
                        return o;
                    }
                }
            } else {
                Violation { key: format!("signal {}", sig), msg: format!("the process died with signal {}", sig) }
            };
            o.violations.push(v);
        } else {
            o.harness = Some(format!("child exited with {} and no result: {}", libc::WEXITSTATUS(st), text));
        }
        o
    }
}
