//! C14-C17, C20: the storm-cli program, run as a separate process on a simulated machine.
use super::core::*;
use super::damage::{damage, dmg, locate, Dmg};
use super::*;
use crate::run::{self, *};
use crate::work::*;
use mopaq::Archive;
use serde::{Deserialize, Serialize};
use serde_json::to_value;
use simos::prng::mix;
use simos::preload::{self, hex, unhex};
use simos::{sim, Fault, Rates};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CString;

// ---- the machine the program runs on -----------------------------------------------------------
#[derive(Clone, Default, PartialEq)]
pub struct World(BTreeMap<Vec<u8>, (char, Vec<u8>)>);
impl World {
    fn new() -> World {
        let mut w = World::default();
        for d in ["/tmp", "/w", "/home/u"] {
            w.dir(d);
        }
        w
    }
    fn dir(&mut self, p: &str) {
        for (i, _) in p.char_indices().filter(|(i, c)| *c == '/' && *i > 0) {
            self.0.entry(p[..i].into()).or_insert(('d', vec![]));
        }
        self.0.entry(p.into()).or_insert(('d', vec![]));
    }
    fn file(&mut self, p: &str, d: &[u8]) {
        if let Some(i) = p.rfind('/') {
            if i > 0 {
                self.dir(&p[..i]);
            }
        }
        self.0.insert(p.into(), ('f', d.to_vec()));
    }
    fn link(&mut self, p: &str, t: &str) {
        self.0.insert(p.into(), ('l', t.into()));
    }
    fn get(&self, p: &str) -> Option<&[u8]> {
        match self.0.get(p.as_bytes()) {
            Some(('f', d)) => Some(d),
            _ => None,
        }
    }
    fn has(&self, p: &str) -> bool {
        self.0.contains_key(p.as_bytes())
    }
}
/// faults of one run of the program, relative to the number of operations of a fault-free run
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Fp {
    /// 0 none, 1 short and interrupted transfers, 2 one failing call, 3 reads fail from a point on, 4 writes fail from a point on, 5 full disk, 6 scattered errors, 7 killed, 8 power lost, 9 two failing calls
    pub k: u8,
    pub at: u32,
    pub v: u32,
    pub r: RateSpec,
}
fn fp(r: &mut Rng, kinds: &[u8]) -> Fp {
    let k = *r.pick(kinds);
    let rates = match k {
        1 => RateSpec { short: *r.pick(&[100u32, 500]), eintr: *r.pick(&[0u32, 100]), ..Default::default() },
        6 => RateSpec { short: 50, eintr: 30, read_err: *r.pick(&[0u32, 20, 100]), write_err: *r.pick(&[0u32, 20, 100]), meta_err: *r.pick(&[0u32, 10, 50]), rare_err: *r.pick(&[0u32, 0, 300]) },
        _ => RateSpec::default(),
    };
    Fp { k, at: r.u64() as u32, v: r.u64() as u32, r: rates }
}
impl Fp {
    fn benign(&self) -> bool {
        self.k <= 1
    }
    fn crash(&self) -> bool {
        self.k == 7 || self.k == 8
    }
    fn name(&self) -> &'static str {
        ["no fault", "short and interrupted", "one error", "reads dead", "writes dead", "disk full", "scattered errors", "kill", "power loss", "two errors"][self.k as usize % 10]
    }
}
#[derive(Clone, Default)]
pub struct Cli {
    /// exit status, 128+signal when killed by one
    code: i32,
    crashed: bool,
    stdout: String,
    stderr: String,
    ops: u64,
    hit: usize,
    /// a failing call (not merely a short or interrupted one) happened
    hard: bool,
    muts: Vec<(String, String)>,
    cover: BTreeMap<String, Vec<(u64, u64)>>,
}
impl Cli {
    fn ok(&self) -> bool {
        self.code == 0 && !self.crashed
    }
    fn tail(&self) -> String {
        let s = self.stderr.trim();
        s.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect()
    }
}
fn memfd() -> i32 {
    unsafe { libc::memfd_create(c"simos".as_ptr(), 0) }
}
fn slurp(fd: i32) -> Vec<u8> {
    unsafe { libc::lseek(fd, 0, libc::SEEK_SET) };
    let v = simos::raw::read_to_end(fd);
    unsafe { libc::close(fd) };
    v
}
/// note which bytes of which file are read
const COVER: u8 = 1;
/// faults may hit the standard output
const STDOUT: u8 = 2;
/// run the program once; the world afterwards is what survived
pub fn cli(w: &mut World, cwd: &str, args: &[&str], f: &Fp, clean_ops: u64, opts: u8) -> Option<Cli> {
    let phase = simos::phase(run::plan(1));
    let s = sim();
    let seed = mix(s.seed, phase as u64) >> 12;
    let n = clean_ops.max(1);
    let mut at = 1 + (f.at as u64 * (n + 1) >> 32);
    if f.k == 8 && f.v % 3 == 0 {
        // power fails once the program has ended
        at = n + 1;
    }
    let mut spec = preload::Spec {
        seed,
        phase,
        tree: w.0.iter().map(|(p, (k, d))| (hex(p), *k, hex(d))).collect(),
        cwd: cwd.into(),
        rates: f.r.rates(),
        explicit: s.explicit.clone(),
        log: s.log.is_some(),
        dead_errno: libc::EIO,
        cover: opts & COVER != 0,
        stdout: opts & STDOUT != 0,
        ..Default::default()
    };
    let errs = [libc::EIO, libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::EIO];
    match f.k {
        2 => spec.at = vec![(at, Fault::Errno(errs[f.v as usize % errs.len()]))],
        9 => spec.at = vec![(at, Fault::Errno(libc::EIO)), (at + 1 + f.v as u64 % 8, Fault::Errno(errs[f.v as usize % errs.len()]))],
        3 => {
            spec.dead_from = Some(at);
            spec.dead_reads = true
        }
        4 => {
            spec.dead_from = Some(at);
            spec.dead_writes = true;
            if f.v & 1 == 0 {
                spec.dead_errno = libc::ENOSPC;
            }
        }
        5 => spec.capacity_extra = Some(f.at as u64 % *[64u64, 4096, 65536, 300_000].get(f.v as usize % 4).unwrap()),
        7 | 8 => spec.at = vec![(at, Fault::Crash { power: f.k == 8, torn: if f.v & 1 == 0 { 0 } else { f.v >> 16 } })],
        1 | 6 => {}
        _ => spec.rates = Rates::default(),
    }
    let (sfd, ofd, so, se) = (memfd(), memfd(), memfd(), memfd());
    if sfd < 0 || ofd < 0 || so < 0 || se < 0 {
        harness_error("memfd".into());
        return None;
    }
    spec.out_fd = ofd;
    simos::raw::write_all(sfd, &serde_json::to_vec(&spec).unwrap());
    let root = crate::driver::root();
    let exe = CString::new(format!("{}/target/cli/debug/storm-cli", root)).unwrap();
    let mut argv: Vec<CString> = vec![CString::new("storm-cli").unwrap()];
    for a in args {
        match CString::new(*a) {
            Ok(c) => argv.push(c),
            Err(_) => return None,
        }
    }
    let envp: Vec<CString> = [format!("SIMOS_SPEC=/proc/self/fd/{}", sfd), format!("LD_PRELOAD={}/target/preload/debug/libsimos.so", root), "HOME=/home/u".into(), "PATH=/bin".into(), "RUST_BACKTRACE=0".into(), "NO_COLOR=1".into()].iter().map(|e: &String| CString::new(e.as_str()).unwrap()).collect();
    let pa: Vec<*const libc::c_char> = argv.iter().map(|c| c.as_ptr()).chain([std::ptr::null()]).collect();
    let pe: Vec<*const libc::c_char> = envp.iter().map(|c| c.as_ptr()).chain([std::ptr::null()]).collect();
    let mut st = 0;
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            harness_error("fork".into());
            return None;
        }
        if pid == 0 {
            let z = libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY);
            libc::dup2(z, 0);
            libc::dup2(so, 1);
            libc::dup2(se, 2);
            let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            libc::execve(exe.as_ptr(), pa.as_ptr(), pe.as_ptr());
            simos::raw::exit_now(140);
        }
        libc::waitpid(pid, &mut st, 0);
        libc::close(sfd);
    }
    let out = slurp(ofd);
    let stdout = String::from_utf8_lossy(&slurp(so)).into_owned();
    let stderr = String::from_utf8_lossy(&slurp(se)).into_owned();
    let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 128 + libc::WTERMSIG(st) };
    let Ok(o) = serde_json::from_slice::<preload::Outcome>(&out) else {
        // aborted, or the simulator was not in the process at all: nothing can be said
        if code == 128 + libc::SIGABRT || code == 128 + libc::SIGSEGV || code == 128 + libc::SIGXCPU {
            fail(&format!("died with signal {}", code - 128), format!("storm-cli {:?} died: {}", args, stderr));
        } else {
            harness_error(format!("storm-cli {:?} ended with {} and left no simulator report: {}", args, code, stderr));
        }
        return None;
    };
    if !o.finished && o.crashed.is_none() {
        fail("hang", format!("storm-cli {:?} did not finish within the step limit", args));
        return None;
    }
    s.injected.extend(o.injected.iter().cloned());
    for (k, n) in &o.counts {
        *s.counts.entry(k.clone()).or_insert(0) += n;
    }
    s.total_ops += o.ops;
    s.hash(o.trace);
    s.tick(o.sim_ns);
    if let Some(l) = &mut s.log {
        l.push(format!("$ storm-cli {} (in {}) -> {}{}", args.join(" "), cwd, code, if o.crashed.is_some() { " crashed" } else { "" }));
        l.extend(o.log.iter().cloned());
        l.extend(stderr.lines().take(5).map(|x| format!("  stderr: {}", x)));
    }
    if o.sealed {
        feat("kernel refuses real changes");
    }
    w.0 = o.tree.iter().map(|(p, k, d)| (unhex(p), (*k, unhex(d)))).collect();
    let hard = o.injected.iter().any(|i| !matches!(i.fault, Fault::Short(_) | Fault::Errno(libc::EINTR)));
    Some(Cli { code, crashed: o.crashed.is_some(), stdout, stderr, ops: o.ops, hit: o.injected.len(), hard, muts: o.mutations, cover: o.cover.into_iter().collect() })
}
/// build the archive described by `a` in this process and return its bytes
fn archive_bytes(ctx: &mut Ctx, a: &Arch) -> Option<Vec<u8>> {
    if a.has_duplicates() || !(1..=4).contains(&a.ver) || a.block > 12 {
        return None;
    }
    a.put_sources("");
    let (st, r) = build(ctx, a, "", "/w/out.mpq", run::plan(1));
    if !ctx.must_finish("build", &st) || !matches!(r, Some(Ok(()))) {
        return None;
    }
    sim().fs.get("/w/out.mpq")
}
/// what the library makes of these bytes, without any fault
#[derive(Clone, Default)]
struct Seen {
    opens: bool,
    /// names in the listing, in order
    listed: Option<Vec<String>>,
    files: BTreeMap<String, Option<Vec<u8>>>,
    entries: usize,
    sector: u64,
    ver: u8,
}
fn look(ctx: &mut Ctx, bytes: &[u8], extra: Vec<String>) -> Option<Seen> {
    sim().fs.put("/w/look.mpq", bytes);
    simos::phase(run::plan(1));
    let c = cell::<Seen>();
    let c2 = c.clone();
    let st = ctx.single(move || {
        let mut s = Seen::default();
        match guard(|| Archive::open("/w/look.mpq")) {
            Some(Ok(mut ar)) => {
                s.opens = true;
                s.sector = 512u64 << ar.header().block_size.min(30);
                s.ver = ar.header().format_version as u8 + 1;
                if let Some(Ok(l)) = guard(|| ar.list()) {
                    s.listed = Some(l.into_iter().map(|e| e.name).collect());
                }
                s.entries = guard(|| ar.list_all()).and_then(|r| r.ok()).map(|l| l.len()).unwrap_or(usize::MAX);
                let mut ns = s.listed.clone().unwrap_or_default();
                ns.extend(extra);
                for n in ns {
                    let d = guard(|| ar.read_file(&n)).and_then(|r| r.ok());
                    s.files.insert(n, d);
                }
            }
            Some(Err(_)) => {}
            None => {}
        }
        set(&c2, s);
    });
    if !ctx.must_finish("reference read", &st) {
        return None;
    }
    take(&c)
}
fn comps(n: &str) -> Vec<&str> {
    n.split(['/', '\\']).filter(|c| !c.is_empty() && *c != ".").collect()
}
/// where a member belongs below the target
fn place(target: &str, n: &str, preserve: bool) -> Option<String> {
    let c = comps(n);
    if c.is_empty() || c.contains(&"..") {
        return None;
    }
    Some(if preserve { format!("{}/{}", target, c.join("/")) } else { format!("{}/{}", target, c.last().unwrap()) })
}
// ---- C14 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S14 {
    a: Arch,
    /// 0 existing directory, 1 new directory, 2 nested new directory, 3 none given, 4 relative, 5 with dots in it
    target: u8,
    preserve: bool,
    /// member to extract; 1000 = all
    one: u32,
    /// single extraction writes to a named file
    named: bool,
    stale: bool,
    f: Vec<Fp>,
}
const HOSTILE: [&str; 52] = [
    "../evil", "..\\evil", "../../evil", "..\\..\\..\\..\\evil.txt", "/w/evil", "\\w\\evil", "/evil", "//w//evil", "a/../../evil", "a\\..\\..\\evil", "a/b/../../../evil", "./../evil", ".\\..\\evil", "..", ".", "a/..", "a\\..\\..",
    "../out2/x", "../keep", "..\\keep", "/w/keep", "/home/u/.bashrc", "..\\..\\home\\u\\.bashrc", "~/.bashrc", "C:\\evil", "C:evil", "...", ".../x", "../out/inside", "/", "a//b", "a/", "sub/x", "dir", "dir/x", "dir\\..\\..\\keep", "/etc/conf", "../../etc/conf",
    "..\\run/../keep", "x/../../../w/keep", "/w/out2", "..//..//evil", " /evil", "/w/out/ok",
    "%2e%2e/evil", "..%2fevil", "%2e%2e%5c%2e%2e\\evil", "．．/evil", "..\u{2215}evil", "%HOME%\\evil", "$HOME/evil", "a/\t../../evil",
];
fn gen14(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let n = r.range(1, 6) as usize;
    let mut seen = BTreeSet::new();
    let mut files = vec![];
    for i in 0..n {
        let name = match r.below(6) {
            0 => name(r, i),
            1 | 2 => {
                // put together from parts
                let k = r.range(1, 6);
                let mut s = String::new();
                if r.chance(1, 4) {
                    s.push_str(*r.pick(&["/", "\\", "//"]));
                }
                for j in 0..k {
                    if j > 0 {
                        s.push_str(*r.pick(&["/", "\\", "/", "\\", "//", "/.\\"]));
                    }
                    s.push_str(*r.pick(&["..", "..", "..", ".", "a", "keep", "w", "out", "out2", "dir", "home", "u", ".. ", "...", "evil", "...", "%2e%2e", "..;"]));
                }
                s
            }
            _ => r.pick(&HOSTILE).to_string(),
        };
        if seen.insert(norm(&name)) {
            files.push(FileSpec { name, size: r.range(0, 900), kind: r.below(4) as u8, cseed: r.u64() >> 12, comp: *r.pick(&[0u8, 2]), enc: 0, locale: 0, path: false });
        }
    }
    let a = Arch { ver: r.range(1, 4) as u8, block: 3, comp: 2, list: *r.pick(&[1u8, 1, 2]), crc: false, ctab: false, tcomp: 2, files };
    let f = (0..2).map(|_| fp(r, &[0, 1, 2, 4, 6, 7, 9])).collect();
    to_value(S14 { a, target: r.below(6) as u8, preserve: r.chance(3, 4), one: if r.chance(1, 3) { r.below(6) as u32 } else { 1000 }, named: r.chance(1, 4), stale: r.chance(1, 2), f }).unwrap()
}
fn run14(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S14>(v.clone()) else { return };
    if s.a.files.is_empty() {
        return;
    }
    let Some(bytes) = archive_bytes(ctx, &s.a) else { return };
    let mut w0 = World::new();
    w0.file("/w/a.mpq", &bytes);
    w0.dir("/w/run");
    w0.file("/w/keep", b"keep");
    w0.file("/w/out2/x", b"sibling");
    w0.file("/home/u/.bashrc", b"rc");
    w0.file("/etc/conf", b"conf");
    w0.file("/evil.txt", b"root file");
    w0.dir("/w/out");
    if s.stale {
        w0.file("/w/out/dir/old", b"old");
        w0.file("/w/run/dir/old", b"old");
    }
    let (arg, target) = match s.target {
        0 => (Some("/w/out"), "/w/out"),
        1 => (Some("/w/new"), "/w/new"),
        2 => (Some("/w/n1/n2"), "/w/n1/n2"),
        3 => (None, "/w/run"),
        4 => (Some("sub"), "/w/run/sub"),
        _ => (Some("../out"), "/w/out"),
    };
    let single = s.a.files.get(s.one as usize).map(|f| f.name.clone());
    if let Some(n) = &single {
        if n.starts_with('-') {
            return;
        }
    }
    let mut args = vec!["-q", "file", "extract", "/w/a.mpq"];
    let named = format!("{}/named.bin", arg.unwrap_or("."));
    let mut allowed = target.to_string();
    if let Some(n) = &single {
        args.push(n);
        if s.named {
            if s.stale && s.target == 0 {
                // an existing directory instead of a file
                args.extend(["-t", "/w/out"]);
            } else {
                args.extend(["-t", &named]);
                allowed = format!("{}/named.bin", target);
            }
        } else {
            // without a target the current directory is the target
            allowed = "/w/run".into();
        }
    } else if let Some(a) = arg {
        args.extend(["-t", a]);
    }
    if s.preserve {
        args.push("-p");
    }
    feat(&format!("{} {}{}", if single.is_some() { "one" } else { "all" }, if s.preserve { "paths" } else { "flat" }, if s.a.files.iter().any(|f| place(target, &f.name, true).is_none() || f.name.starts_with(['/', '\\'])) { " hostile" } else { "" }));
    let mut clean = 60;
    for (k, f) in std::iter::once(Fp::default()).chain(s.f.iter().cloned()).enumerate() {
        let mut w = w0.clone();
        let Some(o) = cli(&mut w, "/w/run", &args, &f, clean, 0) else { return };
        if k == 0 {
            clean = o.ops;
        }
        let inside = |p: &str| p == allowed || p.starts_with(&format!("{}/", allowed));
        let above = |p: &str| allowed.starts_with(&format!("{}/", p));
        for (op, p) in &o.muts {
            if !(inside(p) || (above(p) && op.starts_with("mkdir"))) {
                return fail(&format!("outside {}", op), format!("storm-cli {} (in /w/run) did {} {} outside {} (members: {})", args.join(" "), op, p, allowed, s.a.files.iter().map(|f| format!("{:?}", f.name)).collect::<Vec<_>>().join(" ")));
            }
        }
        for (p, e) in &w.0 {
            let ps = String::from_utf8_lossy(p);
            if !inside(&ps) && w0.0.get(p) != Some(e) && !(above(&ps) && e.0 == 'd') {
                return fail("outside changed", format!("storm-cli {} changed {} outside {}", args.join(" "), ps, allowed));
            }
        }
        for p in w0.0.keys() {
            let ps = String::from_utf8_lossy(p);
            if !inside(&ps) && !w.0.contains_key(p) {
                return fail("outside removed", format!("storm-cli {} removed {} outside {}", args.join(" "), ps, allowed));
            }
        }
    }
}
// ---- C15 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S15 {
    a: Arch,
    target: u8,
    preserve: bool,
    one: u32,
    /// the single file is asked for in another spelling, or does not exist
    ask: u8,
    named: bool,
    stale: bool,
    d: Vec<(u32, Dmg)>,
    f: Vec<Fp>,
}
fn gen15(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 8, locales: false, big: false });
    a.list = *r.pick(&[1u8, 1, 1, 1, 2, 0]);
    for f in &mut a.files {
        f.size = f.size.min(40_000);
    }
    if r.chance(1, 4) {
        scale(r, &mut a);
    }
    if a.files.len() > 1 && r.chance(1, 8) {
        // the same last component in two directories, or a file where a directory is needed
        let n = a.files[0].name.clone();
        let l = comps(&n).last().copied().unwrap_or("x").to_string();
        a.files[1].name = if r.chance(1, 2) { format!("other{}{}", r.pick(&["/", "\\"]), l) } else { format!("{}{}in", n, r.pick(&["/", "\\"])) };
    }
    let d = if r.chance(1, 3) { (0..r.range(1, 2)).map(|_| (r.u64() as u32, dmg(r))).collect() } else { vec![] };
    let f = (0..4).map(|_| fp(r, &[1, 2, 2, 2, 3, 4, 5, 5, 6, 7, 9])).collect();
    to_value(S15 { a, target: r.below(4) as u8, preserve: r.chance(1, 2), one: if r.chance(1, 3) { r.below(8) as u32 } else { 1000 }, ask: r.below(5) as u8, named: r.chance(1, 2), stale: r.chance(1, 2), d, f }).unwrap()
}
fn run15(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S15>(v.clone()) else { return };
    let Some(mut bytes) = archive_bytes(ctx, &s.a) else { return };
    if !s.d.is_empty() {
        let c = cell();
        let (c2, a, full) = (c.clone(), s.a.clone(), bytes.clone());
        simos::phase(run::plan(1));
        ctx.single(move || {
            if let Some(Ok(ar)) = guard(|| Archive::open("/w/out.mpq")) {
                if let Some(l) = locate(&a, &ar, &full) {
                    set(&c2, l.into_iter().map(|l| (l.lo, l.hi)).collect::<Vec<_>>());
                }
            }
        });
        let locs = take(&c).unwrap_or_default();
        if locs.is_empty() {
            return;
        }
        for (k, g) in &s.d {
            let l = locs[*k as usize % locs.len()];
            damage(&mut bytes, l.0, l.1, g);
        }
    }
    let ask = s.a.files.get(s.one as usize).map(|f| match s.ask {
        0 => f.name.to_uppercase().to_lowercase(),
        1 => f.name.replace('\\', "/"),
        2 => format!("{}x", f.name),
        _ => f.name.clone(),
    });
    let Some(mut seen) = look(ctx, &bytes, ask.iter().cloned().collect()) else { return };
    if s.d.is_empty() {
        // nothing is damaged: the contents are known without the library
        for f in &s.a.files {
            for (n, d) in seen.files.iter_mut() {
                if norm(n) == norm(&f.name) {
                    *d = Some(f.data());
                }
            }
        }
    }
    let (arg, target) = match s.target {
        0 => (Some("/w/out"), "/w/out"),
        1 => (Some("/w/n1/n2"), "/w/n1/n2"),
        2 => (None, "/w/run"),
        _ => (Some("sub"), "/w/run/sub"),
    };
    let mut w0 = World::new();
    w0.file("/w/a.mpq", &bytes);
    w0.dir("/w/run");
    w0.dir("/w/out");
    // (place, contents the library finds; None: cannot be read)
    let mut want: Vec<(String, String, Option<Vec<u8>>)> = vec![];
    let mut args = vec!["file", "extract", "/w/a.mpq"];
    let named = format!("{}/named.bin", arg.unwrap_or("."));
    let mut impossible = false;
    if let Some(n) = &ask {
        if n.starts_with('-') {
            return;
        }
        args.push(n);
        let at = if s.named {
            args.extend(["-t", &named]);
            format!("{}/named.bin", target)
        } else {
            match place("/w/run", n, s.preserve) {
                Some(p) => p,
                None => return,
            }
        };
        want.push((n.clone(), at, seen.files.get(n).cloned().flatten()));
    } else {
        if let Some(a) = arg {
            args.extend(["-t", a]);
        }
        match &seen.listed {
            Some(l) => {
                for n in l {
                    match place(target, n, s.preserve) {
                        Some(p) => want.push((n.clone(), p, seen.files.get(n).cloned().flatten())),
                        None => impossible = true,
                    }
                }
            }
            None => impossible = true,
        }
    }
    if s.preserve {
        args.push("-p");
    }
    // two members that cannot both be there; if they are equal, success and failure are both true
    let mut shared = false;
    let mut owner: BTreeMap<&str, &Option<Vec<u8>>> = BTreeMap::new();
    for (_, p, d) in &want {
        if let Some(o) = owner.insert(p, d) {
            impossible |= o != d;
            shared = true;
            feat("members with one place");
        }
        if want.iter().any(|x| x.1.starts_with(&format!("{}/", p))) {
            impossible = true;
            feat("file in the way of a directory");
        }
    }
    if want.iter().any(|x| x.1.split('/').any(|c| c.len() > 255) || x.1.len() > 4095) {
        // no file system takes it: reporting that is right
        impossible = true;
        feat("over-long place");
    }
    if want.iter().any(|x| x.2.is_none()) {
        impossible = true;
        feat("unreadable member");
    }
    if s.stale {
        for (i, (_, p, d)) in want.iter().enumerate() {
            // other contents of some length, or of the very same length, or the same but for the end
            let mut x = vec![b'S'; 50_000];
            if let (Some(d), 1..) = (d, i + bytes.len() & 3) {
                x = d.clone();
                match i + bytes.len() & 3 {
                    1 => x.fill(b'S'),
                    2 => x.truncate(d.len() / 2),
                    _ => x.push(b'S'),
                }
            }
            if (i + bytes.len() / 4) % 2 == 0 && !p.split('/').any(|c| c.len() > 255) && !want.iter().any(|x| x.1.starts_with(&format!("{}/", p)) || p.starts_with(&format!("{}/", x.1))) {
                w0.file(p, &x);
            }
        }
    }
    feat(&format!("{} {} v{}", if ask.is_some() { "one" } else { "all" }, if s.preserve { "paths" } else { "flat" }, s.a.ver));
    let mut clean = 80;
    for (k, f) in std::iter::once(Fp::default()).chain(s.f.iter().cloned()).enumerate() {
        let mut w = w0.clone();
        let Some(o) = cli(&mut w, "/w/run", &args, &f, clean, 0) else { return };
        if k == 0 {
            clean = o.ops;
        }
        let how = format!("storm-cli {} ({})", args.join(" "), f.name());
        if o.ok() {
            if impossible && k == 0 && want.iter().any(|x| x.2.is_none()) {
                let x = want.iter().find(|x| x.2.is_none()).unwrap();
                return fail("unreadable-but-success", format!("{}: {:?} cannot be read but the exit status is 0", how, x.0));
            }
            for (n, p, d) in &want {
                match (w.get(p), d) {
                    (_, None) => return fail("unreadable-but-success", format!("{}: {:?} cannot be read but the exit status is 0", how, n)),
                    (None, _) => return fail("missing-but-success", format!("{}: exit status 0 but {} does not exist", how, p)),
                    (Some(x), Some(d)) => {
                        if x != &d[..] {
                            return fail("wrong-but-success", format!("{}: exit status 0 but {} differs from {:?}: {}", how, p, n, diff(d, x)));
                        }
                    }
                }
            }
            if impossible {
                return fail("impossible-but-success", format!("{}: not everything asked for can have been extracted but the exit status is 0", how));
            }
            feat(if o.hard { "succeeded in spite of a fault" } else { "succeeded" });
        } else if f.benign() && !impossible && !shared && !o.crashed {
            return fail("fails-without-fault", format!("{}: exit status {}: {}", how, o.code, o.tail()));
        } else if o.hit > 0 {
            feat(&format!("reported {}", f.name()));
        } else {
            feat("reported damage or conflict");
        }
        // extraction never changes the archive
        if w.get("/w/a.mpq") != Some(&bytes[..]) {
            return fail("archive-changed", format!("{}: the archive itself changed", how));
        }
    }
}
// ---- C16 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S16 {
    /// (relative path, size, kind, seed)
    src: Vec<(String, u64, u8, u64)>,
    empty_dirs: Vec<String>,
    /// symbolic links (path, target), only with --follow-symlinks
    links: Vec<(String, String)>,
    one: bool,
    ver: u8,
    comp: u8,
    block: u16,
    /// 0 --no-listfile, 1 generated, 2 external
    list: u8,
    flat: bool,
    ignore: Vec<String>,
    /// options come from the configuration file
    conf: bool,
    /// 0 nothing there, 1 an archive, 2 some other file
    prev: u8,
    /// archive path: 0 elsewhere, 1 inside the source directory, 2 relative, 3 in a directory that does not exist
    dest: u8,
    f: Vec<Fp>,
}
const COMPS: [(&str, u8); 6] = [("none", 0), ("zlib", 2), ("bzip2", 0x10), ("lzma", 0x12), ("sparse", 0x20), ("pkware", 8)];
fn gen16(r: &mut Rng, _i: u64, _t: &str) -> Value {
    const D: [&str; 9] = ["", "", "a/", "a/b/", "Units/", "units/x/", "deep/er/and/deeper/", "with space/", "æ/"];
    const S: [&str; 12] = ["f", "F", "readme", "war3map", "x.y", "keep", "tmp", "[b]", ".hidden", "longer-name-longer-name-longer-name-", "ÆØ", "~"];
    const E: [&str; 5] = [".txt", ".bak", "", ".mdx", ".TXT"];
    let n = match r.below(6) {
        0 => r.range(0, 1),
        1..=4 => r.range(1, 7),
        _ => r.range(5, 30),
    };
    let mut src: Vec<(String, u64, u8, u64)> = vec![];
    let mut seen = BTreeSet::new();
    let block = *r.pick(&[0u16, 1, 3, 3, 5, 8]);
    let n = if r.chance(1, 150) { *r.pick(&[210u64, 300, 520]) } else { n };
    for i in 0..n {
        let p = format!("{}{}{}{}", r.pick(&D), r.pick(&S), if r.chance(9, 10) { i.to_string() } else { String::new() }, r.pick(&E));
        let p = if r.chance(1, 60) { format!("odd\\{}", p) } else { p };
        let p = match r.below(100) {
            0 => format!(" lead{}", p),
            1 => format!("{} ", p),
            2 => format!("{}.", p),
            _ => p,
        };
        if seen.insert(p.clone()) {
            src.push((p, if n > 100 { r.below(40) } else { size(r, 512 << block, false).min(30_000) }, r.below(8) as u8, r.u64() >> 12));
        }
    }
    // a path cannot be a file and a directory
    let ps: Vec<String> = src.iter().map(|x| x.0.clone()).collect();
    src.retain(|x| !ps.iter().any(|p| p.starts_with(&format!("{}/", x.0))));
    let mut links = vec![];
    if r.chance(1, 8) {
        links.push(("ln1".to_string(), "/w/else/l".to_string()));
        if r.chance(1, 2) {
            links.push(("lnd".to_string(), "/w/else".to_string()));
        }
    }
    let ignore = match r.below(5) {
        0 => vec![r.pick(&[".bak", "tmp", "Units", "x.y", "zzz", "3"]).to_string()],
        1 => vec![".bak".into(), "keep".into()],
        _ => vec![],
    };
    let f = (0..5).map(|_| fp(r, &[1, 2, 2, 2, 3, 4, 5, 6, 7, 7, 7, 8, 8, 8, 9])).collect();
    to_value(S16 {
        src,
        empty_dirs: if r.chance(1, 3) { vec!["empty".into(), "a/none/deep".into()] } else { vec![] },
        links,
        one: r.chance(1, 8),
        ver: r.range(1, 4) as u8,
        comp: r.below(6) as u8,
        block,
        list: *r.pick(&[0u8, 1, 1, 1, 2]),
        flat: r.chance(1, 5),
        ignore,
        conf: r.chance(1, 4),
        prev: r.below(3) as u8,
        dest: *r.pick(&[0u8, 0, 0, 1, 2, 3]),
        f,
    })
    .unwrap()
}
fn run16(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S16>(v.clone()) else { return };
    if s.comp as usize >= COMPS.len() || !(1..=4).contains(&s.ver) || s.block > 12 {
        return;
    }
    let mut w0 = World::new();
    w0.dir("/w/src");
    let mut sel: Vec<(String, Vec<u8>)> = vec![];
    for (p, n, k, c) in &s.src {
        let d = content(*n, *k, *c);
        w0.file(&format!("/w/src/{}", p), &d);
        sel.push((p.clone(), d));
    }
    for d in &s.empty_dirs {
        if !w0.has(&format!("/w/src/{}", d)) {
            w0.dir(&format!("/w/src/{}", d));
        }
    }
    w0.file("/w/else/l", b"linked");
    w0.file("/w/else/m/n", b"linked too");
    for (p, t) in &s.links {
        w0.link(&format!("/w/src/{}", p), t);
        if t == "/w/else" {
            sel.push((format!("{}/l", p), b"linked".to_vec()));
            sel.push((format!("{}/m/n", p), b"linked too".to_vec()));
        } else {
            sel.push((p.clone(), b"linked".to_vec()));
        }
    }
    let (dest, darg) = match s.dest {
        1 => ("/w/src/out.mpq", "/w/src/out.mpq"),
        2 => ("/w/run/out.mpq", "out.mpq"),
        3 => ("/w/nowhere/out.mpq", "/w/nowhere/out.mpq"),
        _ => ("/w/out.mpq", "/w/out.mpq"),
    };
    w0.dir("/w/run");
    let mut prev: Option<Vec<u8>> = None;
    if s.dest != 3 {
        match s.prev {
            1 => {
                let a = Arch { ver: 1, block: 3, comp: 2, list: 1, crc: false, ctab: false, tcomp: 2, files: vec![FileSpec { name: "old".into(), size: 3000, kind: 2, cseed: 5, comp: 255, enc: 0, locale: 0, path: false }] };
                prev = archive_bytes(ctx, &a);
            }
            2 => prev = Some(b"not an archive at all".to_vec()),
            _ => {}
        }
    }
    if let Some(p) = &prev {
        w0.file(dest, p);
        if s.dest == 1 {
            sel.push(("out.mpq".into(), p.clone()));
        }
    }
    let mut source = "/w/src".to_string();
    if s.one {
        let Some(f) = s.src.first() else { return };
        source = format!("/w/src/{}", f.0);
        let base = f.0.rsplit('/').next().unwrap().to_string();
        let d = sel[0].1.clone();
        sel = vec![(base, d)];
    } else {
        if s.flat {
            sel.retain(|x| !x.0.contains('/'));
        }
        sel.retain(|x| !s.ignore.iter().any(|i| x.0.contains(i.as_str())));
    }
    let mut list: Vec<u8> = vec![];
    for x in &sel {
        list.extend_from_slice(x.0.as_bytes());
        list.extend_from_slice(b"\r\n");
    }
    w0.file("/w/list.txt", &list);
    let (ver, block) = (s.ver.to_string(), s.block.to_string());
    let mut args = vec!["archive", "create", darg, &source];
    if s.conf {
        w0.file("/home/u/.config/storm-cli/config.toml", format!("default_compression = \"{}\"\ndefault_version = {}\ndefault_block_size = {}\n", COMPS[s.comp as usize].0, ver, block).as_bytes());
    } else {
        args.extend(["-V", &ver, "-c", COMPS[s.comp as usize].0, "-b", &block]);
    }
    match s.list {
        0 => args.push("--no-listfile"),
        2 => args.extend(["--listfile", "/w/list.txt"]),
        _ => {}
    }
    if s.flat {
        args.push("--no-recursive");
    }
    if !s.links.is_empty() {
        args.push("--follow-symlinks");
    }
    for i in &s.ignore {
        args.extend(["-i", i]);
    }
    // names as the archive compares them
    let mut model: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let mut clash = s.dest == 3;
    for (n, d) in &sel {
        clash |= model.insert(norm(n), d.clone()).is_some();
    }
    if s.list != 0 {
        clash |= model.contains_key(&norm("(listfile)"));
    }
    feat(&format!("v{} {} {}", s.ver, COMPS[s.comp as usize].0, if s.one { "file" } else if s.flat { "flat" } else { "tree" }));
    if clash {
        feat("cannot be created");
    }
    // is this file the complete new archive?
    let names: Vec<String> = sel.iter().map(|x| x.0.replace('\\', "/")).collect();
    let complete = |ctx: &mut Ctx, b: &[u8]| -> Result<(), String> {
        let Some(k) = look(ctx, b, names.clone()) else { return Err("reading does not end".into()) };
        if !k.opens {
            return Err("cannot be opened".into());
        }
        if k.ver != s.ver || k.sector != 512 << s.block {
            return Err(format!("has version {} and sectors of {} bytes instead of version {} and {}", k.ver, k.sector, s.ver, 512 << s.block));
        }
        for (n, d) in &model {
            let got = k.files.iter().find(|x| norm(x.0) == *n).and_then(|x| x.1.as_ref());
            match got {
                None => return Err(format!("lacks {:?}", String::from_utf8_lossy(n))),
                Some(g) if g != d => return Err(format!("holds other contents for {:?}: {}", String::from_utf8_lossy(n), diff(d, g))),
                _ => {}
            }
        }
        let expect = model.len() + (s.list != 0) as usize;
        if k.entries != expect {
            return Err(format!("has {} entries instead of {}", k.entries, expect));
        }
        // (a listfile line cannot express blanks at the ends of a name)
        if s.list != 0 && names.iter().all(|n| n.trim() == n) {
            let got: BTreeSet<Vec<u8>> = k.listed.unwrap_or_default().iter().map(|n| norm(n)).collect();
            let want: BTreeSet<Vec<u8>> = model.keys().cloned().collect();
            if !want.is_subset(&got) || got.iter().any(|n| !want.contains(n) && *n != norm("(listfile)")) {
                return Err(format!("lists {} names instead of {}", got.len(), want.len()));
            }
        }
        Ok(())
    };
    let mut clean = 120;
    for (k, f) in std::iter::once(Fp::default()).chain(s.f.iter().cloned()).enumerate() {
        let mut w = w0.clone();
        let Some(o) = cli(&mut w, "/w/run", &args, &f, clean, 0) else { return };
        if k == 0 {
            clean = o.ops;
        }
        let how = format!("storm-cli {} ({})", args.join(" "), f.name());
        let now = w.get(dest).map(|d| d.to_vec());
        if o.ok() {
            if clash {
                return fail("impossible-but-success", format!("{}: exit status 0 for files that cannot all be in one archive", how));
            }
            match &now {
                None => return fail("no-archive-but-success", format!("{}: exit status 0 and no archive", how)),
                Some(b) => {
                    if let Err(e) = complete(ctx, b) {
                        return fail("wrong-but-success", format!("{}: exit status 0 but the archive {}", how, e));
                    }
                }
            }
            feat(if o.hard { "succeeded in spite of a fault" } else { "succeeded" });
        } else {
            if f.benign() && !clash {
                return fail("fails-without-fault", format!("{}: exit status {}: {}", how, o.code, o.tail()));
            }
            if now != prev {
                if !o.crashed {
                    return fail("previous-lost", format!("{}: exit status {} but the file at the archive's path changed ({:?} -> {:?} bytes)", how, o.code, prev.map(|p| p.len()), now.map(|p| p.len())));
                }
                match &now {
                    None => return fail("previous-lost-in-crash", format!("{}: the previous archive is gone", how)),
                    Some(b) => {
                        if let Err(e) = complete(ctx, b) {
                            return fail("torn-archive", format!("{}: after the crash the file at the archive's path is neither the old one nor complete: it {}", how, e));
                        }
                        feat("crash after the switch");
                    }
                }
            } else if o.crashed {
                feat("crash before the switch");
            } else {
                feat(&format!("reported {}", f.name()));
            }
        }
        // the sources are never touched
        for (p, e) in &w0.0 {
            if p.starts_with(b"/w/src/") && p != dest.as_bytes() && w.0.get(p) != Some(e) && !f.crash() {
                return fail("source-changed", format!("{}: {} changed", how, String::from_utf8_lossy(p)));
            }
        }
    }
}
// ---- C17 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S17 {
    a: Arch,
    /// 0 json, 1 csv, 2 text, 3 quiet, 4 verbose
    fmt: u8,
    crc: bool,
    /// (0 contents of a file, 1 header field or digest, 2 table bytes, 3 any byte, 4 cut off, 5 a strong signature nobody made), which, damage
    d: Vec<(u8, u32, Dmg)>,
    f: Vec<Fp>,
}
fn gen17(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 8, locales: false, big: false });
    for f in &mut a.files {
        f.size = f.size.min(40_000);
        if f.kind == 6 {
            f.kind = 2;
        }
    }
    if r.chance(1, 4) {
        scale(r, &mut a);
    }
    let d = if r.chance(2, 3) { (0..r.range(1, 2)).map(|_| (*r.pick(&[0u8, 0, 0, 1, 2, 2, 2, 3, 4, 5]), r.u64() as u32, dmg(r))).collect() } else { vec![] };
    let f = (0..3).map(|_| fp(r, &[1, 2, 2, 3, 3, 6, 9])).collect();
    to_value(S17 { a, fmt: r.below(5) as u8, crc: r.chance(1, 3), d, f }).unwrap()
}
fn run17(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S17>(v.clone()) else { return };
    let Some(full) = archive_bytes(ctx, &s.a) else { return };
    let c = cell();
    let (c2, a, fb) = (c.clone(), s.a.clone(), full.clone());
    simos::phase(run::plan(1));
    ctx.single(move || {
        if let Some(Ok(ar)) = guard(|| Archive::open("/w/out.mpq")) {
            if let Some(l) = locate(&a, &ar, &fb) {
                set(&c2, l.into_iter().map(|l| (l.name, l.lo, l.hi, l.pos, l.csize)).collect::<Vec<_>>());
            }
        }
    });
    let Some(locs) = take(&c) else { return };
    let head = [32usize, 44, 68, 208][(s.a.ver as usize).clamp(1, 4) - 1];
    let tables = locs.iter().map(|l| l.2).max().unwrap_or(head).max(head);
    let mut bytes = full.clone();
    let mut data_hit = vec![];
    let mut forged = false;
    for (k, which, g) in &s.d {
        match k {
            0 => {
                if !locs.is_empty() {
                    let i = *which as usize % locs.len();
                    if damage(&mut bytes, locs[i].1, locs[i].2, g) {
                        data_hit.push(i);
                    }
                }
            }
            1 => {
                // format version and signature stay: other damage there makes it another file
                let n = bytes.len().min(head);
                let keep = bytes[..16.min(n)].to_vec();
                let mut g = g.clone();
                g.len = g.len.min(16);
                g.kind = g.kind.min(4);
                damage(&mut bytes, 0, n, &g);
                bytes[..4].copy_from_slice(&keep[..4]);
                bytes[12..14].copy_from_slice(&keep[12..14]);
            }
            2 => {
                let n = bytes.len();
                let mut g = g.clone();
                g.kind = g.kind.min(4);
                damage(&mut bytes, tables.min(n), n, &g);
            }
            4 => {
                let n = bytes.len();
                let cut = (g.at as u64 * (n as u64).min(4000) >> 32) as usize;
                bytes.truncate(n - cut);
                *sim().counts.entry("medium_truncation".into()).or_insert(0) += 1;
            }
            5 => {
                if !forged && bytes.len() == full.len() {
                    forged = true;
                    bytes.extend_from_slice(b"NGIS");
                    bytes.extend_from_slice(&content(256, 1, *which as u64));
                    *sim().counts.entry("forged_signature".into()).or_insert(0) += 1;
                }
            }
            _ => {
                let n = bytes.len();
                damage(&mut bytes, head.min(n), n, g);
            }
        }
    }
    // the damage may have hit the signature's mark or the size field that says where it is
    forged &= bytes.len() == full.len() + 260 && bytes[..full.len()] == full[..] && bytes[full.len()..full.len() + 4] == *b"NGIS";
    let intact = bytes == full;
    let named: Vec<String> = if s.a.list != 0 { s.a.files.iter().map(|f| f.name.clone()).chain(["(listfile)".to_string()]).collect() } else { vec![] };
    // independent grounds on which verification has to fail
    let mut must: Option<String> = None;
    // with a sound list: which of its names can be read
    let mut state: BTreeMap<String, bool> = BTreeMap::new();
    if !intact {
        let Some(seen) = look(ctx, &bytes, named.clone()) else { return };
        if !seen.opens {
            must = Some("the archive cannot be opened".into());
        } else if s.a.list != 0 && seen.files.get("(listfile)").cloned().flatten() == Some(s.a.listfile().into_bytes()) {
            // the list of names is sound: every name on it has to be readable
            state = named.iter().map(|n| (n.clone(), seen.files.get(n).cloned().flatten().is_some())).collect();
            if let Some(n) = named.iter().find(|n| seen.files.get(*n).cloned().flatten().is_none()) {
                must = Some(format!("{:?} is listed but cannot be read", n));
            }
        }
        if must.is_none() && forged {
            must = Some("its strong signature is not one".into());
        }
        if must.is_none() && s.a.ver == 4 && seen.opens && (bytes.len() < full.len() || bytes[..208] != full[..208] || bytes[tables..full.len()] != full[tables..]) {
            // header digest covers 0..192; table digests cover everything behind the files
            must = Some("the header or a table does not match its digest".into());
        }
    }
    let mut args = match s.fmt {
        0 => vec!["-o", "json"],
        1 => vec!["-o", "csv"],
        3 => vec!["-q"],
        4 => vec!["-v"],
        _ => vec![],
    };
    args.extend(["archive", "verify", "/w/a.mpq", "--check-contents"]);
    if s.crc {
        args.push("--check-crc");
    }
    let mut w0 = World::new();
    w0.file("/w/a.mpq", &bytes);
    feat(&format!("v{} {}{}", s.a.ver, if intact { "intact" } else if must.is_some() { "damaged" } else { "harmless or unnoticeable damage" }, if s.a.list == 0 { " unnamed" } else { "" }));
    if !intact && !data_hit.is_empty() && must.is_some() {
        feat("file damage");
    }
    let mut clean = 60;
    for (k, f) in std::iter::once(Fp::default()).chain(s.f.iter().cloned()).enumerate() {
        let mut w = w0.clone();
        let Some(o) = cli(&mut w, "/w", &args, &f, clean, COVER) else { return };
        if k == 0 {
            clean = o.ops;
        }
        let how = format!("storm-cli {} of a v{} archive ({})", args.join(" "), s.a.ver, f.name());
        if w != w0 {
            return fail("verify-changed-files", format!("{}: something was written", how));
        }
        if o.ok() {
            if let Some(m) = &must {
                return fail(&format!("success-for-damaged {}", squash(m).split('"').next_back().unwrap_or("").trim()), format!("{}: exit status 0 but {}", how, m));
            }
            // every stored byte of every listed file has to have been read
            if intact && s.a.list != 0 {
                let mut seen = vec![false; bytes.len()];
                for (p, v) in &o.cover {
                    if p == "/w/a.mpq" {
                        for (x, y) in v {
                            for b in seen.iter_mut().take(*y as usize).skip(*x as usize) {
                                *b = true;
                            }
                        }
                    }
                }
                for l in &locs {
                    let e = (l.3 + l.4).min(bytes.len());
                    if let Some(b) = (l.3..e).find(|b| !seen[*b]) {
                        return fail("success-without-reading", format!("{}: exit status 0 although byte {} of {:?} was never read", how, b - l.3, l.0));
                    }
                }
                if o.hard {
                    feat("succeeded in spite of a fault");
                }
            }
            // what it says about an intact archive
            let n = if s.a.list == 0 { 0 } else { s.a.listfile().lines().count() };
            if let (true, Some(w)) = (intact, report17(&o.stdout, s.fmt, s.a.ver, n)) {
                return fail("report-wrong", format!("{}: exit status 0 for an intact archive of {} files, but {}", how, n, w));
            }
            if s.fmt == 0 && !o.stdout.contains("\"passed\": true") && !o.stdout.contains("\"passed\":true") {
                return fail("report-contradicts-status", format!("{}: exit status 0 but the report does not say passed", how));
            }
        } else {
            if intact && f.benign() {
                return fail("fails-on-intact", format!("{}: exit status {}: {}", how, o.code, o.tail()));
            }
            if (s.fmt == 0 && (o.stdout.contains("\"passed\": true") || o.stdout.contains("\"passed\":true"))) || (s.fmt == 1 && o.stdout.contains("passed,true")) || o.stdout.contains("verification PASSED") {
                return fail("report-contradicts-status", format!("{}: exit status {} but the report says passed", how, o.code));
            }
            // the report names what is damaged, and nothing else
            if k == 0 && s.fmt == 0 && !state.is_empty() && !o.stdout.trim().is_empty() {
                let Ok(j) = serde_json::from_str::<Value>(&o.stdout) else { return fail("report-missing", format!("{}: the output is not valid JSON: {}", how, o.tail())) };
                let told: Vec<&str> = j["errors"].as_array().map(|v| v.iter().filter_map(|e| e["file"].as_str()).collect()).unwrap_or_default();
                if let Some((n, r)) = state.iter().find(|(n, r)| told.contains(&n.as_str()) == **r) {
                    return fail("report-wrong-file", format!("{}: {:?} can {}be read, but the report {} it", how, n, if *r { "" } else { "not " }, if *r { "blames" } else { "does not mention" }));
                }
                feat("damaged file named");
            }
            feat(&format!("reported {}", if must.is_some() { "damage" } else { f.name() }));
        }
    }
}
/// What is wrong with the report on an intact archive?
fn report17(out: &str, fmt: u8, ver: u8, n: usize) -> Option<String> {
    match fmt {
        0 => {
            let Ok(j) = serde_json::from_str::<Value>(out) else { return Some("the output is not valid JSON".into()) };
            fn falses(v: &Value, at: &str, to: &mut Vec<String>) {
                match v {
                    Value::Bool(false) => to.push(at.into()),
                    Value::Object(m) => m.iter().for_each(|(k, v)| falses(v, k, to)),
                    _ => {}
                }
            }
            let mut bad = vec![];
            falses(&j, "", &mut bad);
            for (k, v) in [("format_version", ver as usize), ("total_files", n), ("verified_files", n)] {
                if j[k] != v {
                    bad.push(format!("{}={}", k, j[k]));
                }
            }
            for (k, v) in [("files_found", n), ("files_readable", n), ("files_missing", 0), ("files_corrupted", 0)] {
                if j["file_checks"][k] != v {
                    bad.push(format!("{}={}", k, j["file_checks"][k]));
                }
            }
            if j["errors"].as_array().is_none_or(|e| !e.is_empty()) {
                bad.push("errors".into());
            }
            (!bad.is_empty()).then(|| format!("it reports {}", bad.join(", ")))
        }
        1 => [format!("format_version,{}", ver), format!("total_files,{}", n), format!("verified_files,{}", n), "errors,0".into(), "passed,true".into()].into_iter().find(|l| !out.lines().any(|x| x == l)).map(|l| format!("it does not say {:?}", l)),
        3 => None,
        _ => {
            if let Some(l) = out.lines().find(|l| l.contains("Failed") || l.contains("FAILED") || l.contains("Invalid") || l.contains("Unsupported") || l.contains("✗")) {
                return Some(format!("it says {:?}", l));
            }
            let squeezed: Vec<String> = out.lines().map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).collect();
            [format!("Format: MPQ v{}", ver), format!("Total Files: {}", n), format!("Files Readable: {}", n), "Files Missing: 0".into(), "Files Corrupted: 0".into(), format!("Verified: {} / {} ({}%)", n, n, if n == 0 { 0 } else { 100 })].into_iter().find(|l| !squeezed.contains(l)).map(|l| format!("it does not say {:?}", l))
        }
    }
}
// ---- C20 ---------------------------------------------------------------------------------------
#[derive(Clone, PartialEq, Debug)]
struct Conf {
    comp: String,
    ver: String,
    block: String,
    out: String,
    aliases: BTreeMap<String, String>,
}
impl Conf {
    fn default() -> Conf {
        Conf { comp: "zlib".into(), ver: "1".into(), block: "3".into(), out: "text".into(), aliases: BTreeMap::new() }
    }
}
#[derive(Serialize, Deserialize)]
struct S20 {
    /// 0 none, 1 XDG file, 2 ~/.storm-cli file, 3 both, 4 -C file that exists, 5 -C file that does not
    place: u8,
    /// which settings the file holds (bits), with aliases (bit 4)
    has: u8,
    init: [u32; 4],
    /// (0 set, 1 reset, 2 show, 3 path, 4 create an archive with the defaults, 5 list an archive in the default format), key, value, faults
    steps: Vec<(u8, u8, u32, Fp)>,
    /// how the file was damaged before the first step; 0 not at all
    #[serde(default)]
    bad: u8,
}
const KEYS: [&str; 4] = ["default_compression", "default_version", "default_block_size", "default_output"];
fn value(k: usize, v: u32) -> (String, bool) {
    match k {
        0 => {
            const C: [&str; 9] = ["none", "zlib", "bzip2", "lzma", "sparse", "pkware", "adpcm-mono", "adpcm-stereo", "zstd"];
            let i = v as usize % 9;
            (C[i].into(), i < 8)
        }
        1 => {
            let i = v % 6;
            (i.to_string(), (1..=4).contains(&i))
        }
        2 => {
            let i = v % 26;
            (i.to_string(), i <= 23)
        }
        _ => {
            const O: [&str; 4] = ["text", "json", "csv", "xml"];
            let i = v as usize % 4;
            (O[i].into(), i < 3)
        }
    }
}
fn gen20(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let n = r.range(1, 5);
    let steps = (0..n)
        .map(|_| {
            let f = fp(r, &[0, 1, 2, 2, 2, 4, 5, 6, 7, 7, 7, 8, 8, 8, 9, 3]);
            (*r.pick(&[0u8, 0, 0, 0, 0, 1, 2, 3, 4, 5]), r.below(5) as u8, r.u64() as u32, f)
        })
        .collect();
    // values valid from the start
    let mut init = [0u32; 4];
    for (k, x) in init.iter_mut().enumerate() {
        loop {
            *x = r.u64() as u32;
            if value(k, *x).1 {
                break;
            }
        }
    }
    to_value(S20 { place: r.below(6) as u8, has: *r.pick(&[31u8, 31, 15, 15, 0, 5, 18, 7, 47, 63, 32, 64, 111]), init, steps, bad: if r.chance(1, 15) { r.range(1, 4) as u8 } else { 0 } }).unwrap()
}
fn shown(o: &str) -> Option<Conf> {
    let mut c = Conf { comp: String::new(), ver: String::new(), block: String::new(), out: String::new(), aliases: BTreeMap::new() };
    let mut in_alias = false;
    for l in o.lines() {
        let l = l.trim();
        if let Some(x) = l.strip_prefix("Default compression: ") {
            c.comp = x.into();
        } else if let Some(x) = l.strip_prefix("Default version: ") {
            c.ver = x.into();
        } else if let Some(x) = l.strip_prefix("Default block size: ") {
            c.block = x.into();
        } else if let Some(x) = l.strip_prefix("Default output: ") {
            c.out = x.into();
        } else if l.starts_with("Aliases") {
            in_alias = true;
        } else if in_alias {
            if let Some((a, b)) = l.split_once(" = ") {
                c.aliases.insert(a.into(), b.into());
            }
        }
    }
    if c.comp.is_empty() || c.ver.is_empty() || c.block.is_empty() || c.out.is_empty() {
        return None;
    }
    Some(c)
}
fn run20(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S20>(v.clone()) else { return };
    let mut w = World::new();
    w.file("/w/src/f", &content(3000, 2, 1));
    let sample = Arch { ver: 1, block: 3, comp: 2, list: 1, crc: false, ctab: false, tcomp: 2, files: vec![FileSpec { name: "some\\name".into(), size: 30, kind: 2, cseed: 5, comp: 255, enc: 0, locale: 0, path: false }] };
    let Some(sample) = archive_bytes(ctx, &sample) else { return };
    w.file("/w/s.mpq", &sample);
    let mut m = Conf::default();
    let mut text = String::new();
    for k in 0..4 {
        if s.has & 1 << k == 0 {
            continue;
        }
        let (x, good) = value(k, s.init[k]);
        if !good {
            return;
        }
        match k {
            1 | 2 => text.push_str(&format!("{} = {}\n", KEYS[k], x)),
            _ => text.push_str(&format!("{} = \"{}\"\n", KEYS[k], x)),
        }
        *[&mut m.comp, &mut m.ver, &mut m.block, &mut m.out][k] = x;
    }
    if s.has & 32 != 0 && s.has & 80 == 0 {
        text.push_str("\n[aliases]\nonly = \"file list -a\"\n");
        m.aliases.insert("only".into(), "file list -a".into());
    }
    if s.has & 64 != 0 {
        text.push_str("\n[aliases]\n\"ä\" = \"ö # no comment \\\"quoted\\\" \\\\ end\"\n");
        m.aliases.insert("ä".into(), "ö # no comment \"quoted\" \\ end".into());
    }
    if s.has & 16 != 0 && s.has & 64 == 0 {
        text.push_str("\n[aliases]\nls = \"file list\"\n\"x y\" = \"file extract -p\"\n");
        m.aliases.insert("ls".into(), "file list".into());
        m.aliases.insert("x y".into(), "file extract -p".into());
    }
    let other = "default_compression = \"none\"\ndefault_version = 2\ndefault_block_size = 9\ndefault_output = \"csv\"\n";
    let xdg = "/home/u/.config/storm-cli/config.toml";
    let old = "/home/u/.storm-cli/config.toml";
    let custom = "/w/my/conf.toml";
    let file = match s.place {
        1 => xdg,
        2 => old,
        3 => {
            w.file(xdg, other.as_bytes());
            old
        }
        4 | 5 => {
            w.file(xdg, other.as_bytes());
            custom
        }
        _ => xdg,
    };
    if s.place == 0 || s.place == 5 {
        m = Conf::default();
    } else {
        w.file(file, text.as_bytes());
    }
    let pre: Vec<&str> = if s.place >= 4 { vec!["-C", custom] } else { vec![] };
    let show = |w: &World| -> Option<Result<Conf, String>> {
        let mut t = w.clone();
        let mut a = pre.clone();
        a.extend(["--no-color", "config", "show"]);
        let o = cli(&mut t, "/w", &a, &Fp::default(), 1, 0)?;
        Some(if o.ok() { shown(&o.stdout).ok_or_else(|| "the output cannot be understood".into()) } else { Err(format!("exit status {}: {}", o.code, o.tail())) })
    };
    match show(&w) {
        None => return,
        Some(Ok(c)) if c == m => {}
        Some(x) => return fail("initial-settings-misread", format!("config show for the initial file gives {:?} instead of {:?}", x, m)),
    }
    feat(&format!("place {}", s.place));
    if s.bad != 0 && s.place != 0 && s.place != 5 {
        // a file nobody can make sense of is reported, and stays as it is
        let bad: Vec<u8> = match s.bad {
            1 => [text.as_bytes(), b"default_version = \n"].concat(),
            2 => b"default_version = \"two\"\n".to_vec(),
            3 => [text.as_bytes(), b"\xff\xfe"].concat(),
            _ => b"default_output = \"json\"\ndefault_output = \"csv\"\n".to_vec(),
        };
        w.file(file, &bad);
        for (k, key, val, f) in &s.steps {
            let key = *key as usize;
            let (val, good) = value(key.min(3), *val);
            if *k > 2 || (*k == 0 && (key > 3 || !good)) || *k == 1 {
                continue;
            }
            let mut a = pre.clone();
            match k {
                0 => a.extend(["config", "set", KEYS[key], &val]),
                _ => a.extend(["--no-color", "config", "show"]),
            }
            let Some(o) = cli(&mut w, "/w", &a, f, 20, 0) else { return };
            if o.ok() {
                return fail("nonsense-accepted", format!("storm-cli {}: exit status 0 although the configuration file cannot be parsed", a.join(" ")));
            }
            if w.get(file) != Some(&bad[..]) {
                return fail("nonsense-replaced", format!("storm-cli {} (exit status {}) changed a configuration file that cannot be parsed", a.join(" "), o.code));
            }
        }
        feat("unreadable configuration");
        return;
    }
    for (k, key, val, f) in &s.steps {
        let mut next = m.clone();
        let mut valid = true;
        let mut a = pre.clone();
        let key = *key as usize;
        let (val, good) = value(key.min(3), *val);
        match k {
            0 => {
                a.extend(["config", "set", if key < 4 { KEYS[key] } else { "no_such_key" }, &val]);
                valid = good && key < 4;
                if valid {
                    *[&mut next.comp, &mut next.ver, &mut next.block, &mut next.out][key] = val.clone();
                }
            }
            1 => {
                a.extend(["config", "reset"]);
                next = Conf::default();
            }
            2 => a.extend(["--no-color", "config", "show"]),
            3 => a.extend(["config", "path"]),
            5 => a.extend(["file", "list", "/w/s.mpq"]),
            _ => {
                // huge sectors are a matter of memory and lossy methods one of contents, not of settings
                if m.block.parse::<u32>().unwrap_or(99) > 14 || m.comp.starts_with("adpcm") {
                    continue;
                }
                a.extend(["archive", "create", "/w/new.mpq", "/w/src"])
            }
        }
        // count the operations of this command without faults
        let clean = {
            let mut t = w.clone();
            let Some(o) = cli(&mut t, "/w", &a, &Fp::default(), 1, 0) else { return };
            if valid && !o.ok() {
                return fail("fails-without-fault", format!("storm-cli {}: exit status {}: {}", a.join(" "), o.code, o.tail()));
            }
            if !valid && o.ok() {
                return fail("invalid-accepted", format!("storm-cli {}: exit status 0 for an invalid setting", a.join(" ")));
            }
            if *k == 2 && o.ok() && shown(&o.stdout).as_ref() != Some(&m) {
                return fail("show-wrong", format!("config show prints {:?} instead of {:?}", o.stdout, m));
            }
            if *k == 5 && o.ok() {
                let j = serde_json::from_str::<Value>(&o.stdout).is_ok();
                let is = if j {
                    "json"
                } else if o.stdout.lines().any(|l| l.starts_with("Total: ")) {
                    "text"
                } else {
                    "csv"
                };
                if is != m.out || !o.stdout.contains("name") {
                    return fail("setting-ignored", format!("with default_output = {} a listing comes out as {}: {:?}", m.out, is, o.stdout));
                }
                feat("output format used");
            }
            if *k == 4 && o.ok() {
                let b = t.get("/w/new.mpq").map(|d| d.to_vec()).unwrap_or_default();
                let Some(x) = look(ctx, &b, vec![]) else { return };
                if !x.opens || x.ver.to_string() != m.ver || x.sector != 512u64 << m.block.parse::<u32>().unwrap_or(99).min(40) {
                    return fail("setting-ignored", format!("an archive created with the settings {:?} has version {} and sectors of {} bytes", m, x.ver, x.sector));
                }
                feat("defaults used");
            }
            o.ops
        };
        let Some(o) = cli(&mut w, "/w", &a, f, clean, 0) else { return };
        let how = format!("storm-cli {} ({})", a.join(" "), f.name());
        let Some(now) = show(&w) else { return };
        let ok: Vec<&Conf> = if o.crashed {
            vec![&m, &next]
        } else if o.ok() {
            vec![&next]
        } else {
            vec![&m, &next]
        };
        match now {
            Err(e) => return fail("settings-unreadable", format!("after {} (exit status {}) the configuration cannot be shown: {}; the file holds {:?}", how, o.code, e, w.get(file).map(|d| String::from_utf8_lossy(d).into_owned()))),
            Ok(c) => {
                if !ok.contains(&&c) {
                    let key = if o.ok() { "settings-wrong-after-success" } else if o.crashed { "settings-lost-in-crash" } else { "settings-lost-on-failure" };
                    return fail(key, format!("after {} (exit status {}) the settings are {:?}; they were {:?} and should be {:?}", how, o.code, c, m, next));
                }
                if o.crashed {
                    feat(if c == m { "crash before the switch" } else { "crash after the switch" });
                } else if !o.ok() && o.hit > 0 {
                    feat(&format!("reported {}", f.name()));
                } else if o.ok() && o.hard {
                    feat("succeeded in spite of a fault");
                }
                m = c;
            }
        }
        if s.place >= 3 && w.get(xdg) != Some(other.as_bytes()) && file != xdg {
            return fail("other-file-changed", format!("{}: changed {} although {} is in use", how, xdg, file));
        }
    }
}
// ---- C23 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S23 {
    a: Arch,
    /// 0 file list, 1 archive list, 2 file find, 3 file info, 4 archive info
    cmd: u8,
    /// 0 text, 1 json, 2 csv
    fmt: u8,
    all: bool,
    hashes: bool,
    /// 0 none; otherwise a way to make a pattern from a member's name
    pat: u8,
    which: u32,
    regex: bool,
    nocase: bool,
    /// a strong signature nobody made follows the archive
    sig: bool,
    /// foreign bytes in front (512-byte units)
    shift: u8,
    /// verbose text
    verb: u8,
    /// damage to one of the digests in a version 4 header (1 to 6)
    dig: u8,
    /// a file was deleted by another tool (versions 1 and 2)
    #[serde(default)]
    del: Option<u32>,
    f: Vec<Fp>,
}
fn gen23(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 12, locales: false, big: false });
    a.list = *r.pick(&[1u8, 1, 1, 2, 2, 0]);
    for f in &mut a.files {
        f.size = f.size.min(20_000);
        if r.chance(1, 6) {
            f.size = 0;
        }
        // names that formatted output has to treat with care
        if r.chance(1, 9) {
            let k = r.below(1000);
            f.name = match r.below(8) {
                6 | 7 => format!("{}{}ÖL.TxT", r.pick(&["Ä", "Éä", "Ωö"]), k),
                0 => format!("a, b,{}.txt", k),
                1 => format!("say \"{}\" twice.txt", k),
                2 => format!("\"{}\"", k),
                3 => format!("{}{}\\äöüßéñçøåæêîôû-Ärger-日本語-{}.mdx", "x".repeat(r.below(30) as usize), "é".repeat(r.below(12) as usize), k),
                4 => format!("{}{}", "n".repeat(r.range(30, 200) as usize), k),
                _ => format!("[{}] 100%{{}} \t'$(x)'.txt", k),
            };
        }
    }
    scale(r, &mut a);
    let f = (0..4).map(|_| fp(r, &[1, 1, 2, 2, 2, 3, 4, 6, 6, 7, 9])).collect();
    let fold = r.chance(1, 25);
    if fold {
        // upper and lower case of other scripts
        for (i, f) in a.files.iter_mut().enumerate() {
            f.name = format!("{}{}{}", r.pick(&["Ä", "ä", "Éä", "Ωö", "öL", "Öl"]), r.pick(&["ÖL", "öl", "x"]), i);
        }
    }
    let s = S23 { a, cmd: *r.pick(&[0u8, 0, 1, 2, 2, 3, 4, 4, 5]), fmt: r.below(3) as u8, all: r.chance(1, 5), hashes: r.chance(1, 4), pat: r.below(6) as u8, which: r.u64() as u32, regex: r.chance(1, 2), nocase: r.chance(1, 3), sig: r.chance(1, 6), shift: if r.chance(1, 6) { r.range(1, 5) as u8 } else { 0 }, verb: *r.pick(&[0u8, 0, 1, 2]), dig: *r.pick(&[0u8, 0, 1, 2, 3, 4, 5, 6]), del: if r.chance(1, 5) { Some(r.u64() as u32) } else { None }, f };
    to_value(if fold { S23 { cmd: 2, nocase: true, ..s } } else { s }).unwrap()
}
/// the fields of one line of comma-separated values
fn csv(l: &str) -> Vec<String> {
    let (mut out, mut cur, mut quoted) = (vec![], String::new(), false);
    let mut it = l.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '"' if quoted && it.peek() == Some(&'"') => {
                it.next();
                cur.push('"');
            }
            '"' if quoted => quoted = false,
            '"' if cur.is_empty() => quoted = true,
            ',' if !quoted => out.push(std::mem::take(&mut cur)),
            c => cur.push(c),
        }
    }
    out.push(cur);
    out
}
fn plain(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|b| b.is_alphanumeric() || b == '_')
}
fn run23(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S23>(v.clone()) else { return };
    let Some(mut inner) = archive_bytes(ctx, &s.a) else { return };
    let mut gone: Option<String> = None;
    if let (Some(k), 1..=2, false) = (s.del, s.a.ver, s.a.files.is_empty()) {
        use super::hostile::{crypt, rd32};
        let n = &s.a.files[k as usize % s.a.files.len()].name;
        let (hp, bp, hn, bn) = (rd32(&inner, 16), rd32(&inner, 20), rd32(&inner, 24), rd32(&inner, 28));
        if hp + 16 * hn > inner.len() || bp + 16 * bn > inner.len() {
            return;
        }
        let (a, b) = (mopaq::crypto::hash_string(n, 1), mopaq::crypto::hash_string(n, 2));
        let mut block = None;
        crypt(&mut inner[hp..hp + 16 * hn], "(hash table)", |w| {
            for e in w.chunks_mut(4) {
                if e[0] == a && e[1] == b && e[3] < bn as u32 {
                    block = Some(e[3] as usize);
                    e.copy_from_slice(&[!0, !0, !0, !1]);
                }
            }
        });
        if let Some(i) = block {
            crypt(&mut inner[bp..bp + 16 * bn], "(block table)", |w| w[4 * i + 3] &= !0x8000_0000);
            gone = Some(n.clone());
            feat("deleted by another tool");
        }
    }
    let mut bytes = vec![0x55u8; 512 * s.shift as usize];
    let offset = bytes.len() as u64;
    bytes.extend_from_slice(&inner);
    let dig = if s.a.ver == 4 && s.cmd == 4 && !s.sig { s.dig as usize } else { 0 };
    if dig > 0 {
        let at = offset as usize + 112 + 16 * (dig - 1) + s.which as usize % 16;
        bytes[at] ^= 1 << (s.which >> 8) % 8;
    }
    if s.sig {
        bytes.extend_from_slice(b"NGIS");
        bytes.extend_from_slice(&content(256, 1, s.which as u64));
    }
    let mut names: Vec<String> = s.a.files.iter().map(|f| f.name.clone()).filter(|n| Some(n) != gone.as_ref()).collect();
    let entries = names.len() + (s.a.list != 0) as usize;
    if s.a.list != 0 {
        names.push("(listfile)".into());
    }
    if names.iter().any(|n| n.contains(['\n', '\r']) || n.trim() != n || n.is_empty()) {
        return;
    }
    // without a list there are no names to ask for
    let named = s.a.list != 0;
    // a pattern and, independently of the program, what it selects
    let mut pattern: Option<String> = None;
    let mut sel: Vec<String> = names.clone();
    let fold = |x: &str| if s.nocase && s.cmd == 2 { x.to_lowercase() } else { x.to_string() };
    if s.cmd <= 2 && named && !s.all && !names.is_empty() && (s.pat > 0 || s.cmd == 2) {
        let n = &names[s.which as usize % names.len()];
        let stem: String = n.chars().skip((s.which >> 8) as usize % 5).take(1 + (s.which >> 16) as usize % 6).collect();
        let ext = n.rsplit('.').next().unwrap_or("").to_string();
        let (p, f): (String, Box<dyn Fn(&str) -> bool>) = match s.pat {
            1 if plain(&stem) => (if s.regex { stem.clone() } else { format!("*{}*", stem) }, Box::new({ let k = fold(&stem); move |x: &str| x.contains(&k) })),
            2 if plain(&ext) => (if s.regex { format!("{}$", ext) } else { format!("*{}", ext) }, Box::new({ let k = fold(&ext); move |x: &str| x.ends_with(&k) })),
            3 if plain(&stem) => (if s.regex { format!("^{}", stem) } else { format!("{}*", stem) }, Box::new({ let k = fold(&stem); move |x: &str| x.starts_with(&k) })),
            4 => (if s.regex { "^.*$".into() } else { "*".into() }, Box::new(|_: &str| true)),
            5 => ("no such name at all".into(), Box::new(|_: &str| false)),
            _ => (if s.regex { "." } else { "*" }.into(), Box::new(|_: &str| true)),
        };
        sel.retain(|x| f(&fold(x)));
        pattern = Some(p);
    }
    sel.sort();
    let one = names.get(s.which as usize % names.len().max(1)).cloned();
    let mut args: Vec<&str> = match s.fmt {
        1 => vec!["-o", "json"],
        2 => vec!["-o", "csv"],
        _ => vec!["--no-color"],
    };
    let verb = if s.fmt == 0 && s.cmd <= 1 { s.verb } else { 0 };
    args.extend(match verb {
        0 => &[][..],
        1 => &["-v"][..],
        _ => &["-vv"][..],
    });
    match s.cmd {
        0 => args.extend(["file", "list", "/w/a.mpq"]),
        1 => args.extend(["archive", "list", "/w/a.mpq"]),
        2 => {
            if !named || pattern.is_none() {
                return;
            }
            args.extend(["-q", "file", "find", "/w/a.mpq", pattern.as_ref().unwrap()])
        }
        3 => {
            let Some(o) = &one else { return };
            if o.starts_with('-') {
                return;
            }
            args.extend(["file", "info", "/w/a.mpq", o])
        }
        4 => args.extend(["archive", "info", "/w/a.mpq"]),
        5 => {
            if !named {
                return;
            }
            args.extend(["archive", "analyze", "/w/a.mpq", "-s"]);
            if s.hashes {
                args.push("-e");
            }
            if s.nocase {
                args.push("-d");
            }
        }
        _ => return,
    }
    if s.cmd <= 1 {
        if s.all {
            args.push("-a");
        }
        if s.hashes {
            args.push("--show-hashes");
        }
        if let Some(p) = &pattern {
            args.extend(["-p", p]);
        }
    }
    if (s.cmd <= 2) && s.regex && pattern.is_some() {
        args.push("-r");
    }
    if s.cmd == 2 && s.nocase {
        args.push("-i");
    }
    let size = one.as_ref().map(|n| if n == "(listfile)" { s.a.listfile().len() as u64 } else { s.a.files.iter().find(|f| f.name == *n).map(|f| f.data().len() as u64).unwrap_or(0) });
    let mut w0 = World::new();
    w0.file("/w/a.mpq", &bytes);
    feat(&format!("{} {} v{}{}", ["list", "archive list", "find", "info", "archive info", "analyze"][s.cmd as usize % 6], ["text", "json", "csv"][s.fmt as usize % 3], s.a.ver, if pattern.is_some() { " filtered" } else { "" }));
    let length = |n: &str| if n == "(listfile)" { s.a.listfile().len() as u64 } else { s.a.files.iter().find(|f| f.name == n).map(|f| f.data().len() as u64).unwrap_or(0) };
    let human = |b: u64| match b {
        0..=1023 => b.to_string(),
        1024..=1048575 => format!("{:.2} KB", b as f64 / 1024.0),
        _ => format!("{:.2} MB", b as f64 / 1048576.0),
    };
    // the verbose table: one row per file with its size and attributes, then the totals
    let table = |lines: &[&str]| -> Result<(), String> {
        let bars: Vec<usize> = lines.iter().enumerate().filter(|l| l.1.len() >= 100 && l.1.bytes().all(|b| b == b'-')).map(|l| l.0).collect();
        let [from, to] = bars[..] else { return Err("the table is not complete".into()) };
        let rows = &lines[from + 1..to];
        let want: Vec<String> = if named && !s.all { sel.clone() } else { (0..entries).map(|_| String::new()).collect() };
        if rows.len() != want.len() {
            return Err(format!("it lists {} entries instead of {}", rows.len(), want.len()));
        }
        let all: Vec<u64> = names.iter().map(|n| length(n)).collect();
        let mut shown = vec![];
        for (row, n) in rows.iter().zip(&want) {
            let c: Vec<char> = row.chars().collect();
            if c.len() < 75 {
                return Err(format!("a row is cut short: {:?}", row));
            }
            let cell = |a: usize, b: usize| c[a..b].iter().collect::<String>().trim().to_string();
            let (name, size, flags) = (cell(0, 40), cell(40, 53), c[74..].iter().collect::<String>());
            shown.push(size.clone());
            if n.is_empty() {
                continue;
            }
            let (k, short) = (n.chars().count(), name.strip_suffix("...").filter(|_| n.chars().count() > 20));
            if name != *n && !short.is_some_and(|x| n.starts_with(x) && x.len() > 20 && k > 30) {
                return Err(format!("it lists {:?} where {:?} belongs", name, n));
            }
            if size != human(length(n)) {
                return Err(format!("it gives {:?} as the size of {:?} ({} bytes)", size, n, length(n)));
            }
            let enc = s.a.files.iter().find(|f| f.name == *n).is_some_and(|f| s.a.encrypted(f));
            if n != "(listfile)" && flags.contains("Encrypted") != enc {
                return Err(format!("it gives {:?} as attributes of {:?}", flags, n));
            }
            if s.hashes {
                let h = |t| format!("{:X}", mopaq::crypto::hash_string(n, t));
                if c.len() < 97 || cell(74, 85) != h(1) || cell(85, 96) != h(2) {
                    return Err(format!("{:?} does not give {} {} as hashes of {:?}", row, h(1), h(2), n));
                }
            }
            if flags.contains("Single Unit") != (length(n) <= s.a.sector()) && length(n) > 0 {
                return Err(format!("it gives {:?} as attributes of {:?} ({} bytes)", flags, n, length(n)));
            }
        }
        let mut total: u64 = all.iter().sum();
        if named && !s.all {
            total = sel.iter().map(|n| length(n)).sum();
        } else if named || !all.is_empty() {
            let mut w: Vec<String> = all.iter().map(|x| human(*x)).collect();
            w.sort();
            shown.sort();
            if w != shown {
                return Err("the sizes are not those of the stored files".into());
            }
        }
        let last = lines.get(to + 1).copied().unwrap_or("");
        let c: Vec<char> = last.chars().collect();
        if !last.starts_with(&format!("Total: {} files", rows.len())) || c.len() < 53 || c[40..53].iter().collect::<String>().trim() != human(total) {
            return Err(format!("the totals are {:?} for {} files of {} bytes", last, rows.len(), total));
        }
        if verb == 2 && named && !s.all {
            let e = sel.iter().filter(|n| s.a.files.iter().any(|f| f.name == **n && s.a.encrypted(f))).count();
            if !lines.iter().any(|l| l.strip_prefix("Encrypted files:").is_some_and(|x| x.split_whitespace().next() == Some(&e.to_string()))) {
                return Err(format!("it does not say that {} files are encrypted", e));
            }
        }
        Ok(())
    };
    // is this output the right and complete answer?
    let right = |o: &Cli| -> Result<(), String> {
        let out = &o.stdout;
        let j = if s.fmt == 1 && s.cmd != 2 { Some(serde_json::from_str::<Value>(out).map_err(|e| format!("the output is not valid JSON ({})", e))?) } else { None };
        let lines: Vec<&str> = out.lines().collect();
        if verb > 0 {
            return table(&lines);
        }
        match s.cmd {
            0..=2 => {
                let got: Vec<String> = match (s.cmd, s.fmt) {
                    (2, _) => lines.iter().map(|l| l.to_string()).collect(),
                    (_, 1) => j.as_ref().and_then(|j| j.as_array()).ok_or("the output is not a list")?.iter().map(|x| x.as_str().or_else(|| x["name"].as_str()).unwrap_or("?").to_string()).collect(),
                    (_, 2) => lines.iter().skip(1).map(|l| csv(l).into_iter().next().unwrap_or_default()).collect(),
                    _ => {
                        let Some(t) = lines.iter().rposition(|l| l.starts_with("Total: ")) else { return Err("the total is missing".into()) };
                        let g: Vec<String> = lines[..t.saturating_sub(1)].iter().map(|l| if s.hashes && l.ends_with(']') { l.rsplit_once(" [").map(|x| x.0).unwrap_or(l).to_string() } else { l.to_string() }).collect();
                        if lines[t] != format!("Total: {} files", g.len()) {
                            return Err(format!("{:?} follows {} names", lines[t], g.len()));
                        }
                        g
                    }
                };
                if !named || s.all {
                    if got.len() != entries {
                        return Err(format!("it lists {} entries instead of {}", got.len(), entries));
                    }
                } else {
                    let mut g = got.clone();
                    g.sort();
                    if g != sel {
                        return Err(format!("it gives {} names instead of {}: missing {:?}, unexpected {:?}", g.len(), sel.len(), sel.iter().find(|x| !g.contains(x)), g.iter().find(|x| !sel.contains(x))));
                    }
                }
                if s.hashes && s.cmd < 2 && named && !s.all {
                    let rows: Vec<Vec<String>> = match s.fmt {
                        1 => j.as_ref().unwrap().as_array().unwrap().iter().map(|x| ["name", "hash1", "hash2"].iter().map(|k| x[k].as_str().unwrap_or("?").to_string()).collect()).collect(),
                        2 => lines.iter().skip(1).map(|l| csv(l)).collect(),
                        _ => lines.iter().take(got.len()).map(|l| l.strip_suffix(']').and_then(|l| l.rsplit_once(" [")).map(|(n, h)| std::iter::once(n).chain(h.split(' ')).map(|x| x.to_string()).collect()).unwrap_or_default()).collect(),
                    };
                    for x in &rows {
                        let [n, a, b] = &x[..] else { return Err(format!("it gives {:?} instead of a name and its hashes", x)) };
                        let h = |t| format!("{:08X}", mopaq::crypto::hash_string(n, t));
                        if *a != h(1) || *b != h(2) {
                            return Err(format!("it gives {} {} as hashes of {:?} instead of {} {}", a, b, n, h(1), h(2)));
                        }
                    }
                }
            }
            3 => {
                let want = size.unwrap_or(0);
                let got = match s.fmt {
                    1 => j.as_ref().unwrap()["size"].as_u64(),
                    2 => lines.last().map(|l| csv(l)).filter(|l| l.len() == 2).and_then(|l| l[1].parse().ok()),
                    _ => lines.iter().find_map(|l| l.strip_prefix("Size:")).and_then(|l| l.trim().strip_suffix(" bytes")).and_then(|x| x.parse().ok()),
                };
                if got != Some(want) {
                    return Err(format!("it says {:?} bytes instead of {}", got, want));
                }
            }
            4 => {
                let field = |k: &str, text: &str| -> Option<String> {
                    match s.fmt {
                        1 => {
                            let x = if k.starts_with("has_l") || k.starts_with("has_a") { &j.as_ref().unwrap()["special_files"][k] } else { &j.as_ref().unwrap()[k] };
                            Some(x.to_string())
                        }
                        2 => lines.iter().find_map(|l| l.strip_prefix(&format!("{},", k))).map(|x| x.to_string()),
                        _ => lines.iter().find_map(|l| l.strip_prefix(&format!("{}: ", text))).map(|x| x.to_string()),
                    }
                };
                let mut want: Vec<(&str, &str, String)> = vec![("format_version", "Format version", if s.fmt == 0 { format!("v{}", s.a.ver) } else { s.a.ver.to_string() }), ("file_count", "Number of files", entries.to_string()), ("sector_size", "Sector size", if s.fmt == 0 { format!("{} bytes", 512u64 << s.a.block) } else { (512u64 << s.a.block).to_string() }), ("archive_offset", "Archive offset", if s.fmt == 0 { format!("0x{:X}", offset) } else { offset.to_string() })];
                if s.fmt != 0 {
                    want.push(("file_size", "", bytes.len().to_string()));
                    want.push(("has_listfile", "", named.to_string()));
                    want.push(("has_attributes", "", "false".to_string()));
                    want.push(("is_encrypted", "", s.a.files.iter().any(|f| s.a.encrypted(f)).to_string()));
                    want.push(("has_signature", "", s.sig.to_string()));
                    if !s.sig {
                        want.push(("signature_status", "", if s.fmt == 1 { "\"None\"" } else { "None" }.to_string()));
                    }
                } else {
                    want.push(("", "(listfile) file", if named { "Present" } else { "Not present" }.to_string()));
                    want.push(("", "(attributes) file", "Not present".to_string()));
                    want.push(("", "Encrypted", if s.a.files.iter().any(|f| s.a.encrypted(f)) { "Yes" } else { "No" }.to_string()));
                    want.push(("", "Digital signature", if s.sig { "Strong signature (Invalid)" } else { "No signature" }.to_string()));
                    if !o.hard {
                        let word = |at: usize| u32::from_le_bytes(inner[at..at + 4].try_into().unwrap());
                        for (t, size, at) in [("Hash table", 24, 16), ("Block table", 28, 20)] {
                            let x = lines.iter().find_map(|l| l.strip_prefix(&format!("{}: ", t))).unwrap_or("");
                            let w = format!("{} entries @ 0x{:X}", word(size), word(at));
                            if x != w && !x.starts_with(&format!("{} (", w)) {
                                return Err(format!("it says {}: {:?} instead of {}", t, x, w));
                            }
                        }
                        if s.a.ver == 4 {
                            let Some(from) = lines.iter().position(|l| l.starts_with("MD5")) else { return Err("it has no digest report".into()) };
                            for (i, k) in ["Block table", "Hash table", "", "BET table", "HET table", "MPQ header"].iter().enumerate() {
                                let good = dig != i + 1 && !(i == 5 && dig > 0);
                                let x = lines[from..].iter().find_map(|l| l.strip_prefix(&format!("{}: ", k)));
                                if i != 2 && x != Some(if good { "Valid" } else { "Invalid" }) {
                                    return Err(format!("it says that the digest of the {} is {:?}", k, x));
                                }
                            }
                        }
                    }
                }
                for (k, t, x) in want {
                    if field(k, t).as_deref() != Some(&x) {
                        return Err(format!("it says {} = {:?} instead of {}", k, field(k, t), x));
                    }
                }
                if s.sig && !out.contains("StrongInvalid") && !out.contains("Strong signature (Invalid)") {
                    return Err("it does not say that the strong signature is invalid".into());
                }
                if s.fmt == 1 {
                    let j = j.as_ref().unwrap();
                    let word = |at: usize| u32::from_le_bytes(inner[at..at + 4].try_into().unwrap()) as u64;
                    for (k, x, at) in [("hash_table", "offset", 16), ("block_table", "offset", 20), ("hash_table", "size", 24), ("block_table", "size", 28)] {
                        if j["tables"][k][x].as_u64() != Some(word(at)) {
                            return Err(format!("it says {} of the {} = {} instead of {}", x, k, j["tables"][k][x], word(at)));
                        }
                    }
                    if s.a.ver >= 3 && !o.hard && j["tables"]["bet_table"]["size"].as_u64() != Some(entries as u64) {
                        return Err(format!("it says that the BET table has {} entries instead of {}", j["tables"]["bet_table"]["size"], entries));
                    }
                }
                if s.fmt == 1 && !o.hard {
                    let j = j.as_ref().unwrap();
                    for t in ["hash_table", "block_table", "het_table", "bet_table", "hi_block_table"] {
                        if j["tables"][t]["failed_to_load"] == Value::Bool(true) {
                            return Err(format!("it says that the {} failed to load", t));
                        }
                    }
                    if let Some(m) = j["md5_status"].as_object() {
                        let which = ["block_table_valid", "hash_table_valid", "hi_block_table_valid", "bet_table_valid", "het_table_valid", "header_valid"];
                        for (i, k) in which.iter().enumerate() {
                            // a table that does not exist has no digest to compare
                            if i == 2 {
                                continue;
                            }
                            let good = dig != i + 1 && !(i == 5 && dig > 0);
                            if m.get(*k) != Some(&Value::Bool(good)) {
                                return Err(format!("it says {} = {:?} (damaged: {})", k, m.get(*k), if dig > 0 { which[dig - 1] } else { "none" }));
                            }
                        }
                    } else if s.a.ver == 4 {
                        return Err("it has no digest report".into());
                    }
                }
            }
            5 => {
                // how many files, how large, and every one of them counted
                let total: u64 = names.iter().map(|n| length(n)).sum();
                let n = names.len() as u64;
                let counted: u64 = match s.fmt {
                    1 => {
                        let j = j.as_ref().unwrap();
                        if j["total_files"] != n || j["total_uncompressed_size"] != total {
                            return Err(format!("it counts {} files of {} bytes instead of {} of {}", j["total_files"], j["total_uncompressed_size"], n, total));
                        }
                        if s.hashes {
                            let by: u64 = j["by_extension"].as_object().map(|m| m.values().filter_map(|x| x.as_object()).flat_map(|x| x.values()).filter_map(|x| x.as_u64()).sum()).unwrap_or(0);
                            if by != n {
                                return Err(format!("it counts {} files by extension instead of {}", by, n));
                            }
                        }
                        j["compression_methods"].as_object().map(|m| m.values().filter_map(|x| x["count"].as_u64()).sum()).unwrap_or(0)
                    }
                    2 => lines.iter().skip(1).filter_map(|l| csv(l).get(1).and_then(|x| x.parse::<u64>().ok())).sum(),
                    _ => {
                        let number = |t: &str| lines.iter().find_map(|l| l.strip_prefix(t)).and_then(|x| x.split_whitespace().next()).and_then(|x| x.parse::<u64>().ok());
                        if number("Total files:") != Some(n) || number("Total uncompressed:") != Some(total) {
                            return Err(format!("it counts {:?} files of {:?} bytes instead of {} of {}", number("Total files:"), number("Total uncompressed:"), n, total));
                        }
                        n
                    }
                };
                if counted != n {
                    return Err(format!("it gives the methods of {} files instead of {}", counted, n));
                }
            }
            _ => {}
        }
        Ok(())
    };
    let mut clean = 60;
    for (k, f) in std::iter::once(Fp::default()).chain(s.f.iter().cloned()).enumerate() {
        let mut w = w0.clone();
        let Some(o) = cli(&mut w, "/w", &args, &f, clean, STDOUT) else { return };
        if k == 0 {
            clean = o.ops;
        }
        let how = format!("storm-cli {} of a v{} archive ({})", args.join(" "), s.a.ver, f.name());
        if w != w0 || !o.muts.is_empty() {
            return fail("query-changed-files", format!("{}: something was written: {:?}", how, o.muts.first()));
        }
        if o.ok() {
            if let Err(e) = right(&o) {
                return fail(&format!("wrong-answer {}", ["list", "list", "find", "info", "archive-info", "analyze"][s.cmd as usize % 6]), format!("{}: exit status 0 but {}", how, e));
            }
            feat(if o.hard { "right in spite of a fault" } else { "right" });
        } else if f.benign() && !o.crashed {
            return fail("fails-without-fault", format!("{}: exit status {}: {}", how, o.code, o.tail()));
        } else {
            feat(&format!("reported {}", f.name()));
        }
    }
}
pub fn props() -> Vec<Prop> {
    let p = |id, gen, run, quick, rule| Prop { id, gen, run, quick, rule, real: REAL_CLI, stub: STUB_LIB, assume: ASSUME };
    vec![
        p("C14", gen14 as fn(&mut Rng, u64, &str) -> Value, run14 as fn(&mut Ctx, &Value), 14000, "one archive extracted three times under different faults; an execution counts once its operation trace and workload differ from all earlier ones"),
        p("C15", gen15, run15, 6500, "one archive extracted five times under different faults; an execution counts once its operation trace and workload differ from all earlier ones"),
        p("C16", gen16, run16, 5000, "one source tree archived six times under different faults; an execution counts once its operation trace and workload differ from all earlier ones"),
        p("C17", gen17, run17, 10000, "one archive verified four times under different faults; an execution counts once its operation trace and workload differ from all earlier ones"),
        p("C23", gen23, run23, 8000, "one query answered five times under different faults; an execution counts once its operation trace and workload differ from all earlier ones"),
        p("C20", gen20, run20, 6500, "one history of configuration commands, each under its own faults; an execution counts once its operation trace and workload differ from all earlier ones"),
    ]
}
