//! Self-configuration when loaded into another program with LD_PRELOAD.
//! `SIMOS_SPEC` names a real file holding a `Spec`; at exit a `Outcome` is written to `spec.out`.
use crate::{Fault, Injected, Plan, Rates};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Spec {
    pub seed: u64,
    /// phase number of the parent's run this process is
    pub phase: u32,
    /// (hex path, kind d/f/l, hex contents), parents first
    pub tree: Vec<(String, char, String)>,
    pub cwd: String,
    pub rates: Rates,
    pub at: Vec<(u64, Fault)>,
    pub dead_from: Option<u64>,
    pub dead_errno: i32,
    pub dead_reads: bool,
    pub dead_writes: bool,
    pub capacity_extra: Option<u64>,
    pub scope: Option<String>,
    pub explicit: Option<Vec<Injected>>,
    pub log: bool,
    pub out_fd: i32,
    #[serde(default)]
    pub latency: u64,
    #[serde(default)]
    pub clock_jump: i64,
    #[serde(default)]
    pub cover: bool,
    /// faults may also hit what the program writes to its standard output
    #[serde(default)]
    pub stdout: bool,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub tree: Vec<(String, char, String)>,
    pub mutations: Vec<(String, String)>,
    pub injected: Vec<Injected>,
    pub counts: BTreeMap<String, u64>,
    pub ops: u64,
    pub trace: u64,
    pub sim_ns: u64,
    pub crashed: Option<String>,
    pub log: Vec<String>,
    pub finished: bool,
    pub cover: Vec<(String, Vec<(u64, u64)>)>,
    /// the kernel refuses real changes from this process (seccomp)
    pub sealed: bool,
}
pub fn hex(b: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(H[(x >> 4) as usize] as char);
        s.push(H[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let v = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => 0,
    };
    s.as_bytes().chunks(2).map(|p| v(p[0]) << 4 | v(*p.get(1).unwrap_or(&b'0'))).collect()
}
pub fn plan_of(s: &Spec) -> Plan {
    Plan {
        seed: s.seed,
        rates: s.rates.clone(),
        at: s.at.clone(),
        dead_from: s.dead_from,
        dead_errno: s.dead_errno,
        dead_reads: s.dead_reads,
        dead_writes: s.dead_writes,
        capacity: None,
        scope: s.scope.clone(),
    }
}
#[cfg(feature = "preload")]
mod boot {
    use super::*;
    static mut OUT: i32 = -1;
    static mut START: u64 = 0;
    static mut SEALED: bool = false;
    #[used]
    #[link_section = ".init_array"]
    static INIT: extern "C" fn() = init;
    extern "C" fn init() {
        let Ok(p) = std::env::var("SIMOS_SPEC") else { return };
        let Some(d) = crate::raw::read_file(&p) else { return };
        let Ok(s) = serde_json::from_slice::<Spec>(&d) else {
            crate::raw::write_all(2, b"simos: bad spec\n");
            unsafe { libc::_exit(138) }
        };
        crate::reset(s.seed, s.explicit.clone(), s.log);
        let sim = crate::sim();
        sim.preload = true;
        sim.stdout = s.stdout;
        sim.fs = crate::fs::Fs::new();
        for (p, k, h) in &s.tree {
            if let Err(e) = sim.fs.put_entry(&unhex(p), *k, &unhex(h)) {
                crate::raw::write_all(2, format!("simos: bad tree entry {} {}\n", p, e).as_bytes());
                unsafe { libc::_exit(138) }
            }
        }
        sim.fs.sync_all();
        sim.fs.cwd = s.cwd.as_bytes().to_vec();
        sim.fs.mutations.clear();
        sim.latency = s.latency;
        sim.real_ns = sim.real_ns.wrapping_add(s.clock_jump as u64);
        if s.cover {
            sim.cover = Some(Default::default());
        }
        let mut plan = plan_of(&s);
        if let Some(x) = s.capacity_extra {
            plan.capacity = Some(sim.fs.used() + x);
        }
        crate::phase(plan);
        sim.phase = s.phase;
        unsafe {
            START = sim.clock_ns;
            OUT = s.out_fd;
            libc::atexit(fini);
            SEALED = seal();
        }
        crate::set_global_active(true);
    }
    /// Second line of defence: should a call slip past the interposed entry points, the kernel ends
    /// the process instead of changing the real file system.
    unsafe fn seal() -> bool {
        const LD: u16 = 0x20; // BPF_LD|BPF_W|BPF_ABS
        const JEQ: u16 = 0x15;
        const JSET: u16 = 0x45;
        const RET: u16 = 0x06;
        const KILL: u32 = 0x8000_0000;
        const ALLOW: u32 = 0x7fff_0000;
        let bad = [
            libc::SYS_creat, libc::SYS_unlink, libc::SYS_unlinkat, libc::SYS_rename, libc::SYS_renameat, libc::SYS_renameat2, libc::SYS_mkdir, libc::SYS_mkdirat, libc::SYS_rmdir,
            libc::SYS_symlink, libc::SYS_symlinkat, libc::SYS_link, libc::SYS_linkat, libc::SYS_truncate, libc::SYS_chmod, libc::SYS_fchmodat, libc::SYS_chown, libc::SYS_lchown,
            libc::SYS_fchownat, libc::SYS_mknod, libc::SYS_mknodat, libc::SYS_kill, libc::SYS_execve, libc::SYS_execveat, libc::SYS_mount, libc::SYS_umount2, libc::SYS_openat2,
            libc::SYS_utimensat, libc::SYS_setxattr, libc::SYS_socket,
        ];
        let w = (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) as u32;
        let ins = |code, jt, jf, k| libc::sock_filter { code, jt, jf, k };
        let mut f = vec![ins(LD, 0, 0, 0)];
        for n in bad {
            f.push(ins(JEQ, 0, 1, n as u32));
            f.push(ins(RET, 0, 0, KILL));
        }
        for (n, arg) in [(libc::SYS_open, 1u32), (libc::SYS_openat, 2)] {
            f.push(ins(JEQ, 0, 4, n as u32));
            f.push(ins(LD, 0, 0, 16 + 8 * arg));
            f.push(ins(JSET, 0, 1, w));
            f.push(ins(RET, 0, 0, KILL));
            f.push(ins(RET, 0, 0, ALLOW));
        }
        f.push(ins(RET, 0, 0, ALLOW));
        let prog = libc::sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
        if crate::raw::sc6(libc::SYS_prctl, libc::PR_SET_NO_NEW_PRIVS as usize, 1, 0, 0, 0, 0) != 0 {
            return false;
        }
        crate::raw::sc6(libc::SYS_prctl, libc::PR_SET_SECCOMP as usize, 2, &prog as *const _ as usize, 0, 0, 0) == 0
    }
    extern "C" fn fini() {
        crate::set_global_active(false);
        crate::sim().late_power_loss();
        dump(true)
    }
    pub(crate) fn dump(finished: bool) {
        crate::set_global_active(false);
        let out = unsafe { std::mem::replace(&mut *std::ptr::addr_of_mut!(OUT), -1) };
        if out < 0 {
            return;
        }
        let s = crate::sim();
        let o = Outcome {
            tree: s.fs.entries().into_iter().map(|(p, k, d)| (hex(&p), k, hex(&d))).collect(),
            mutations: s.fs.mutations.iter().map(|(a, b)| (a.to_string(), String::from_utf8_lossy(b).to_string())).collect(),
            injected: s.injected.clone(),
            counts: s.counts.clone(),
            ops: s.total_ops,
            trace: s.trace,
            sim_ns: s.clock_ns - unsafe { START },
            crashed: s.crashed.clone(),
            log: s.log.clone().unwrap_or_default(),
            finished,
            cover: s.cover.take().unwrap_or_default().into_iter().map(|(k, v)| (String::from_utf8_lossy(&k).into_owned(), v)).collect(),
            sealed: unsafe { SEALED },
        };
        crate::raw::write_all(out, &serde_json::to_vec(&o).unwrap_or_default());
    }
}
#[cfg(feature = "preload")]
pub(crate) fn exit(code: i32) -> ! {
    boot::dump(false);
    unsafe {
        crate::raw::sc6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
#[cfg(not(feature = "preload"))]
pub(crate) fn exit(code: i32) -> ! {
    unsafe {
        crate::raw::sc6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
