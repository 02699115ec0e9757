//! Token-passing scheduler: simulated threads are OS threads, exactly one of which runs at a time.
//! Every system call, lock operation (std's futex calls) and instrumented atomic operation is a
//! scheduling point; a seeded policy (or an explicit list when replaying) decides who runs next.
use crate::prng::{mix, Rng};
use crate::raw;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Policy {
    /// switch with this per-mille probability at each point
    Random(u32),
    /// random priorities with `d` priority changes within the first `horizon` points
    Pct { d: u32, horizon: u64 },
    /// explicit switches
    Replay(Vec<(u64, usize)>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Done,
    Crash,
    OpLimit,
    Deadlock(String),
}
#[derive(Clone, Debug, PartialEq)]
enum St {
    Run,
    Futex { addr: usize, until: Option<u64> },
    Sleep(u64),
    Done,
}
struct Th {
    st: St,
    wake: AtomicU32,
    timed_out: bool,
    what: String,
}
pub struct Sched {
    th: Vec<Box<Th>>,
    cur: usize,
    pub points: u64,
    policy: Policy,
    rng: Rng,
    prio: Vec<u64>,
    changes: Vec<u64>,
    pub switches: Vec<(u64, usize)>,
    stop: Option<Stop>,
    pub point_limit: u64,
    pub hash: u64,
    seed: u64,
}
static mut S: *mut Sched = std::ptr::null_mut();
static CTRL: AtomicU32 = AtomicU32::new(0);
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }
pub fn me() -> Option<usize> {
    ME.try_with(|m| m.get()).ok().filter(|m| *m != usize::MAX)
}
fn s() -> &'static mut Sched {
    unsafe { &mut *S }
}
pub fn label(l: String) {
    if let Some(m) = me() {
        if unsafe { !S.is_null() } {
            s().th[m].what = l;
        }
    }
}
fn park_forever() -> ! {
    let w = AtomicU32::new(0);
    loop {
        unsafe { raw::futex_wait(w.as_ptr(), 0) }
    }
}
/// end the run from within a simulated thread; never returns there
pub fn stop(why: Stop) -> ! {
    if me().is_none() || unsafe { S.is_null() } {
        // not under the scheduler: preload process or direct use
        crate::interpose::die(why);
    }
    s().stop = Some(why);
    CTRL.store(1, Ordering::SeqCst);
    unsafe { raw::futex_wake(CTRL.as_ptr()) };
    park_forever()
}
impl Sched {
    fn runnable(&self) -> Vec<usize> {
        (0..self.th.len()).filter(|i| self.th[*i].st == St::Run).collect()
    }
    fn choose(&mut self, cur_ok: bool) -> Option<usize> {
        let mut r = self.runnable();
        if r.is_empty() {
            // advance simulated time to the earliest timer
            let now = crate::sim().clock_ns;
            let mut best: Option<(u64, usize)> = None;
            for (i, t) in self.th.iter().enumerate() {
                let u = match &t.st {
                    St::Sleep(u) => Some(*u),
                    St::Futex { until: Some(u), .. } => Some(*u),
                    _ => None,
                };
                if let Some(u) = u {
                    if best.map(|b| u < b.0).unwrap_or(true) {
                        best = Some((u, i));
                    }
                }
            }
            let (u, i) = best?;
            if u > now {
                crate::sim().tick(u - now);
            }
            self.th[i].timed_out = matches!(self.th[i].st, St::Futex { .. });
            self.th[i].st = St::Run;
            r.push(i);
        }
        let p = self.points;
        let cur = self.cur;
        let n = match &self.policy {
            Policy::Replay(v) => match v.iter().find(|x| x.0 == p) {
                Some((_, t)) if r.contains(t) => *t,
                _ => {
                    if cur_ok {
                        cur
                    } else {
                        r[0]
                    }
                }
            },
            Policy::Random(pm) => {
                if cur_ok && !self.rng.permille(*pm) {
                    cur
                } else {
                    r[self.rng.below(r.len() as u64) as usize]
                }
            }
            Policy::Pct { .. } => {
                if self.changes.contains(&p) {
                    let low = self.prio.iter().min().copied().unwrap_or(1 << 40);
                    self.prio[cur] = low.saturating_sub(1);
                }
                *r.iter().max_by_key(|i| self.prio[**i]).unwrap()
            }
        };
        Some(n)
    }
    fn go(&mut self, next: usize, mine: usize) {
        if next == mine {
            return;
        }
        self.switches.push((self.points, next));
        self.hash = (self.hash ^ (next as u64 + 1) ^ self.points << 8).wrapping_mul(0x100000001b3).rotate_left(7);
        self.cur = next;
        self.th[next].wake.store(1, Ordering::SeqCst);
        unsafe { raw::futex_wake(self.th[next].wake.as_ptr()) };
    }
}
fn wait_on(w: *const AtomicU32) {
    loop {
        unsafe {
            if (*w).swap(0, Ordering::SeqCst) == 1 {
                return;
            }
            raw::futex_wait((*w).as_ptr(), 0);
        }
    }
}
fn deadlock() -> ! {
    let d: Vec<String> = s().th.iter().enumerate().map(|(i, t)| format!("t{}:{:?} in {}", i, match &t.st { St::Run => "running", St::Futex { .. } => "blocked on a lock", St::Sleep(_) => "asleep", St::Done => "finished" }, t.what)).collect();
    stop(Stop::Deadlock(d.join("; ")))
}
/// a scheduling point
pub fn point() {
    let Some(i) = me() else { return };
    if unsafe { S.is_null() } {
        return;
    }
    let sc = s();
    sc.points += 1;
    if sc.points > sc.point_limit {
        stop(Stop::OpLimit);
    }
    if sc.th.len() == 1 {
        return;
    }
    let n = sc.choose(true).unwrap_or(i);
    if n != i {
        let w: *const AtomicU32 = &sc.th[i].wake;
        sc.go(n, i);
        wait_on(w);
    }
}
/// block the current thread (state already set) until made runnable again
fn block(i: usize) {
    let sc = s();
    sc.points += 1;
    match sc.choose(false) {
        None => deadlock(),
        Some(n) => {
            if n != i {
                let w: *const AtomicU32 = &sc.th[i].wake;
                sc.go(n, i);
                wait_on(w);
            }
        }
    }
}
pub fn futex(addr: usize, op: i32, val: u32, timeout_abs_ns: Option<u64>, rel: bool) -> Result<isize, i32> {
    let cmd = op & 127 & !256;
    let Some(i) = me() else { return Err(libc::ENOSYS) };
    if unsafe { S.is_null() } {
        return Err(libc::ENOSYS);
    }
    match cmd {
        0 | 9 => {
            // WAIT, WAIT_BITSET
            point();
            let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
            if cur != val {
                return Err(libc::EAGAIN);
            }
            let until = timeout_abs_ns.map(|t| if rel { crate::sim().clock_ns + t } else { t });
            let sc = s();
            sc.th[i].timed_out = false;
            sc.th[i].st = St::Futex { addr, until };
            block(i);
            if s().th[i].timed_out {
                return Err(libc::ETIMEDOUT);
            }
            Ok(0)
        }
        1 | 10 => {
            let sc = s();
            let mut w: Vec<usize> = (0..sc.th.len()).filter(|k| matches!(&sc.th[*k].st, St::Futex { addr: a, .. } if *a == addr)).collect();
            Rng::new(mix(sc.seed, sc.points)).shuffle(&mut w);
            let n = w.len().min(val as usize);
            for k in &w[..n] {
                sc.th[*k].st = St::Run;
            }
            point();
            Ok(n as isize)
        }
        _ => Err(libc::ENOSYS),
    }
}
pub fn sleep_ns(ns: u64) {
    match me() {
        Some(i) if unsafe { !S.is_null() } => {
            let until = crate::sim().clock_ns + ns;
            s().th[i].st = St::Sleep(until);
            block(i);
        }
        _ => {
            crate::sim().tick(ns);
        }
    }
}
pub struct Report {
    pub stop: Stop,
    pub points: u64,
    pub switches: Vec<(u64, usize)>,
    pub hash: u64,
    pub results: BTreeMap<usize, String>,
}
/// Run the closures as simulated threads until all finish, the machine crashes or nobody can run.
/// Threads that did not finish stay parked for ever (the caller's process is short-lived).
pub fn run(policy: Policy, seed: u64, point_limit: u64, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Report {
    let n = bodies.len();
    let mut rng = Rng::new(mix(seed, 0x5c4ed));
    let mut prio: Vec<u64> = (0..n as u64).map(|i| (1 << 40) + i).collect();
    rng.shuffle(&mut prio);
    let changes = match &policy {
        Policy::Pct { d, horizon } => (0..*d).map(|_| rng.range(1, (*horizon).max(1))).collect(),
        _ => vec![],
    };
    let sc = Box::new(Sched {
        th: (0..n).map(|_| Box::new(Th { st: St::Run, wake: AtomicU32::new(0), timed_out: false, what: String::new() })).collect(),
        cur: usize::MAX,
        points: 0,
        policy,
        rng,
        prio,
        changes,
        switches: vec![],
        stop: None,
        point_limit,
        hash: 0xcbf29ce484222325,
        seed,
    });
    unsafe { S = Box::into_raw(sc) };
    CTRL.store(0, Ordering::SeqCst);
    for (i, b) in bodies.into_iter().enumerate() {
        // never freed: a thread may get here only after the run has ended
        let w = &s().th[i].wake as *const AtomicU32 as usize;
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                ME.with(|m| m.set(i));
                wait_on(w as *const AtomicU32);
                crate::ACTIVE.with(|c| c.set(true));
                b();
                crate::ACTIVE.with(|c| c.set(false));
                // finished: pass the token on (thread-local destructors run unsimulated)
                let sc = s();
                sc.th[i].st = St::Done;
                ME.with(|m| m.set(usize::MAX));
                if sc.th.iter().all(|t| t.st == St::Done) {
                    sc.stop = Some(Stop::Done);
                    CTRL.store(1, Ordering::SeqCst);
                    unsafe { raw::futex_wake(CTRL.as_ptr()) };
                } else {
                    sc.points += 1;
                    match sc.choose(false) {
                        Some(nx) => sc.go(nx, i),
                        None => {
                            ME.with(|m| m.set(i));
                            deadlock()
                        }
                    }
                }
            })
            .expect("spawn");
    }
    // first thread
    {
        let sc = s();
        sc.cur = usize::MAX;
        let r = sc.runnable();
        let first = match &sc.policy {
            Policy::Replay(v) => v.iter().find(|x| x.0 == 0).map(|x| x.1).filter(|t| r.contains(t)).unwrap_or(0),
            Policy::Pct { .. } => *r.iter().max_by_key(|i| sc.prio[**i]).unwrap(),
            _ => r[sc.rng.below(r.len() as u64) as usize],
        };
        sc.go(first, usize::MAX);
    }
    while CTRL.load(Ordering::SeqCst) == 0 {
        unsafe { raw::futex_wait(CTRL.as_ptr(), 0) };
    }
    let sc = s();
    let rep = Report { stop: sc.stop.clone().unwrap_or(Stop::Done), points: sc.points, switches: sc.switches.clone(), hash: sc.hash, results: BTreeMap::new() };
    unsafe { S = std::ptr::null_mut() };
    rep
}
