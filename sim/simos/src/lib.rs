//! Deterministic operating-system simulator.
//!
//! The libc entry points the code under test reaches (through std, tempfile/rustix, walkdir) are
//! defined in `interpose.rs` and served from an in-memory file system, a simulated clock, a seeded
//! random source and, for multi-threaded runs, a token-passing scheduler (`sched.rs`).
pub mod fs;
pub mod interpose;
pub mod preload;
pub mod prng;
pub mod raw;
pub mod sched;
pub mod tsan;

use fs::{Fs, Ino};
use prng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;

pub(crate) fn preload_exit(code: i32) -> ! {
    preload::exit(code)
}
pub const FD_BASE: i32 = 1 << 20;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    /// transfer at most this many bytes
    Short(u32),
    /// fail with this errno, no effect
    Errno(i32),
    /// the process ends here; `power`: unsynced state is lost; a write first transfers `torn` bytes
    Crash { power: bool, torn: u32 },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum OpK {
    Open,
    Create,
    Read,
    Write,
    Seek,
    Stat,
    Sync,
    Rename,
    Unlink,
    Mkdir,
    Trunc,
    Readdir,
    Chmod,
    Map,
}
/// per-mille probabilities of faults per operation
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Rates {
    pub short: u32,
    pub eintr: u32,
    pub read_err: u32,
    pub write_err: u32,
    pub meta_err: u32,
    /// sync, rename, unlink, truncate, chmod only
    #[serde(default)]
    pub rare_err: u32,
}
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub seed: u64,
    pub rates: Rates,
    /// inject at these operation numbers (of this phase)
    pub at: Vec<(u64, Fault)>,
    /// from this operation on every matching operation fails (kind mask by `dead_writes`)
    pub dead_from: Option<u64>,
    pub dead_errno: i32,
    pub dead_reads: bool,
    pub dead_writes: bool,
    /// bytes of file data the disk can hold
    pub capacity: Option<u64>,
    /// only operations on paths starting with this are faulted
    pub scope: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Injected {
    pub phase: u32,
    pub op: u64,
    pub fault: Fault,
    #[serde(default)]
    pub at: String,
}
pub struct OpenFile {
    pub ino: Ino,
    pub pos: u64,
    pub flags: i32,
    pub path: Vec<u8>,
}
pub struct Sim {
    pub fs: Fs,
    pub fds: BTreeMap<i32, OpenFile>,
    pub plan: Plan,
    pub explicit: Option<Vec<Injected>>,
    pub seed: u64,
    pub phase: u32,
    pub op: u64,
    pub total_ops: u64,
    pub injected: Vec<Injected>,
    pub counts: BTreeMap<String, u64>,
    pub trace: u64,
    pub log: Option<Vec<String>>,
    pub clock_ns: u64,
    pub real_ns: u64,
    pub rand: Rng,
    pub crashed: Option<String>,
    pub op_limit: u64,
    pub latency: u64,
    pub preload: bool,
    pub stdout: bool,
    pub maps: BTreeMap<usize, usize>,
    /// byte ranges of each file that were read successfully (only when asked for)
    pub cover: Option<BTreeMap<Vec<u8>, Vec<(u64, u64)>>>,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
static mut GLOBAL_ACTIVE: bool = false;
thread_local! {
    pub(crate) static ACTIVE: Cell<bool> = const { Cell::new(false) };
    pub(crate) static IN_SIM: Cell<bool> = const { Cell::new(false) };
}
/// is the calling thread simulated (and not inside the simulator itself)?
#[inline]
pub fn active() -> bool {
    unsafe {
        if SIM.is_null() {
            return false;
        }
        if IN_SIM.try_with(|c| c.get()).unwrap_or(true) {
            return false;
        }
        GLOBAL_ACTIVE || ACTIVE.try_with(|c| c.get()).unwrap_or(false)
    }
}
pub fn sim() -> &'static mut Sim {
    unsafe {
        assert!(!SIM.is_null());
        &mut *SIM
    }
}
pub fn set_global_active(b: bool) {
    unsafe { GLOBAL_ACTIVE = b }
}
pub struct InSim;
impl InSim {
    pub fn enter() -> InSim {
        IN_SIM.with(|c| c.set(true));
        InSim
    }
}
impl Drop for InSim {
    fn drop(&mut self) {
        IN_SIM.with(|c| c.set(false));
    }
}
/// start a fresh simulated machine
pub fn reset(seed: u64, explicit: Option<Vec<Injected>>, log: bool) {
    let mut fs = Fs::new();
    for d in ["/tmp", "/w", "/home/u"] {
        fs.put_dirs(d);
    }
    fs.cwd = b"/w".to_vec();
    fs.commit_journal();
    fs.mutations.clear();
    let s = Box::new(Sim {
        fs,
        fds: BTreeMap::new(),
        plan: Plan::default(),
        explicit,
        seed,
        phase: 0,
        op: 0,
        total_ops: 0,
        injected: vec![],
        counts: BTreeMap::new(),
        trace: 0xcbf29ce484222325,
        log: if log { Some(vec![]) } else { None },
        clock_ns: 1_000_000_000 + mix(seed, 77) % 1_000_000_000_000,
        real_ns: 1_700_000_000_000_000_000 + mix(seed, 78) % 100_000_000_000_000_000,
        rand: Rng::new(mix(seed, 79)),
        crashed: None,
        op_limit: 3_000_000,
        latency: 0,
        preload: false,
        stdout: false,
        maps: BTreeMap::new(),
        cover: None,
    });
    unsafe {
        SIM = Box::into_raw(s);
    }
}
/// run `f` on this thread under simulation
pub fn with<T>(f: impl FnOnce() -> T) -> T {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            ACTIVE.with(|c| c.set(self.0));
        }
    }
    let old = ACTIVE.with(|c| c.replace(true));
    let _g = G(old);
    f()
}
/// run `f` outside the simulation (harness bookkeeping inside a simulated thread)
pub fn without<T>(f: impl FnOnce() -> T) -> T {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            ACTIVE.with(|c| c.set(self.0));
        }
    }
    let old = ACTIVE.with(|c| c.replace(false));
    let _g = G(old);
    f()
}
/// begin a new phase with its own operation numbering and fault plan
pub fn phase(plan: Plan) -> u32 {
    let s = sim();
    s.phase += 1;
    s.op = 0;
    s.plan = plan;
    s.phase
}
impl Sim {
    pub fn note(&mut self, line: impl FnOnce() -> String) {
        if self.log.is_some() {
            let l = format!("[{}:{} t{}] {}", self.phase, self.op, sched::me().map(|x| x as i64).unwrap_or(-1), line());
            self.log.as_mut().unwrap().push(l);
        }
    }
    pub fn hash(&mut self, v: u64) {
        self.trace = (self.trace ^ v).wrapping_mul(0x100000001b3).rotate_left(5);
    }
    fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn covered(&mut self, path: &[u8], off: u64, len: u64) {
        if let Some(c) = &mut self.cover {
            let v = c.entry(path.to_vec()).or_default();
            match v.last_mut() {
                Some(l) if l.1 == off => l.1 = off + len,
                _ => v.push((off, off + len)),
            }
        }
    }
    pub fn tick(&mut self, ns: u64) {
        self.clock_ns += ns;
        self.real_ns += ns;
    }
    /// decide what happens to the next operation
    pub fn decide(&mut self, k: OpK, path: &[u8], len: usize) -> Option<Fault> {
        self.op += 1;
        self.total_ops += 1;
        let op = self.op;
        let lat = 1_000 + mix(mix(self.seed, self.phase as u64), op) % 200_000;
        self.tick(lat);
        if self.latency > 0 && mix(mix(self.seed, 5), self.total_ops) % 50 == 0 {
            self.tick(self.latency);
            self.count("stall");
        }
        self.hash(k as u64 ^ (len as u64) << 8 ^ (op << 40));
        let mut f: Option<Fault> = None;
        if let Some(ex) = &self.explicit {
            f = ex.iter().find(|i| i.phase == self.phase && i.op == op).map(|i| i.fault.clone());
        } else {
            let scoped = match &self.plan.scope {
                Some(p) => path.starts_with(p.as_bytes()),
                None => true,
            };
            let p = &self.plan;
            if scoped {
                if let Some((_, x)) = p.at.iter().find(|(o, _)| *o == op) {
                    f = Some(x.clone());
                } else if p.dead_from.map(|d| op >= d).unwrap_or(false)
                    && ((p.dead_reads && matches!(k, OpK::Read)) || (p.dead_writes && matches!(k, OpK::Write | OpK::Create | OpK::Trunc | OpK::Sync | OpK::Mkdir)))
                {
                    f = Some(Fault::Errno(p.dead_errno));
                } else {
                    let mut r = Rng::new(mix(mix(p.seed, self.phase as u64), op));
                    let q = &p.rates;
                    match k {
                        OpK::Read | OpK::Write => {
                            if r.permille(q.eintr) {
                                f = Some(Fault::Errno(libc::EINTR));
                            } else if r.permille(q.short) && len > 1 {
                                let n = match r.below(4) {
                                    0 => 1,
                                    1 => r.range(1, (len as u64 - 1).min(16)),
                                    _ => r.range(1, len as u64 - 1),
                                };
                                f = Some(Fault::Short(n as u32));
                            } else if k == OpK::Read && r.permille(q.read_err) {
                                f = Some(Fault::Errno(libc::EIO));
                            } else if k == OpK::Write && r.permille(q.write_err) {
                                f = Some(Fault::Errno(*r.pick(&[libc::EIO, libc::ENOSPC])));
                            }
                        }
                        OpK::Open | OpK::Stat | OpK::Readdir | OpK::Seek | OpK::Map => {
                            if k == OpK::Open && r.permille(q.eintr) {
                                f = Some(Fault::Errno(libc::EINTR));
                            } else if r.permille(q.meta_err) {
                                f = Some(Fault::Errno(*r.pick(&[libc::EIO, libc::EACCES, libc::EMFILE])));
                            }
                        }
                        _ => {
                            let extra = if matches!(k, OpK::Sync | OpK::Rename | OpK::Unlink | OpK::Trunc | OpK::Chmod) { q.rare_err } else { 0 };
                            if r.permille(q.meta_err.max(extra)) {
                                f = Some(Fault::Errno(*r.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES])));
                            }
                        }
                    }
                    if f.is_none() && k == OpK::Write {
                        if let Some(cap) = p.capacity {
                            let room = cap.saturating_sub(self.fs.used());
                            if room < len as u64 {
                                f = Some(if room == 0 { Fault::Errno(libc::ENOSPC) } else { Fault::Short(room as u32) });
                            }
                        }
                    }
                }
            }
        }
        // a short transfer must be a strictly shorter, non-empty one
        if let Some(Fault::Short(n)) = &f {
            if !matches!(k, OpK::Read | OpK::Write) || *n == 0 || *n as usize >= len {
                f = None;
            }
        }
        // interruption only exists for calls that can block
        if let Some(Fault::Errno(libc::EINTR)) = &f {
            if !matches!(k, OpK::Read | OpK::Write | OpK::Open | OpK::Create) {
                f = Some(Fault::Errno(libc::EIO));
            }
        }
        if let Some(x) = &f {
            let kind = match x {
                Fault::Short(_) => format!("short_{:?}", k).to_lowercase(),
                Fault::Errno(e) => format!("{}_{:?}", errname(*e), k).to_lowercase(),
                Fault::Crash { power: true, .. } => "power_loss".into(),
                Fault::Crash { .. } => "process_kill".into(),
            };
            self.count(&kind);
            let at = format!("{:?} {} len={}", k, String::from_utf8_lossy(path), len);
            self.injected.push(Injected { phase: self.phase, op, fault: x.clone(), at });
            self.hash(0xfa17 + op);
        }
        if self.total_ops > self.op_limit {
            sched::stop(sched::Stop::OpLimit);
        }
        f
    }
    /// power fails after the process has ended, if the plan or the replayed faults say so
    pub fn late_power_loss(&mut self) {
        let lost = |f: &Fault| matches!(f, Fault::Crash { power: true, .. });
        let hit = match &self.explicit {
            Some(ex) => ex.iter().find(|i| i.phase == self.phase && i.op > self.op && lost(&i.fault)).map(|i| (i.op, i.fault.clone())),
            None => self.plan.at.iter().find(|(n, f)| *n > self.op && lost(f)).cloned(),
        };
        if let (Some((op, fault)), None) = (hit, &self.crashed) {
            self.count("power_loss");
            self.injected.push(Injected { phase: self.phase, op, fault, at: "after the end".into() });
            self.hash(0xfa17 + op);
            self.do_crash(true);
        }
    }
    pub fn do_crash(&mut self, power: bool) {
        let mut msg = "process killed".to_string();
        if power {
            let mut r = Rng::new(mix(mix(self.seed, self.phase as u64), self.op ^ 0xdead));
            msg = self.fs.power_loss(&mut r);
        }
        self.fds.clear();
        for n in self.fs.inodes.values_mut() {
            n.opens = 0;
        }
        self.note(|| format!("CRASH {}", msg));
        self.crashed = Some(msg);
    }
}
pub fn errname(e: i32) -> String {
    match e {
        libc::EIO => "EIO".into(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::EINTR => "EINTR".into(),
        libc::EACCES => "EACCES".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::ENOENT => "ENOENT".into(),
        libc::ENOMEM => "ENOMEM".into(),
        e => format!("E{}", e),
    }
}
