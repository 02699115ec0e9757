//! C11, C12, C13, C22: the C API under many threads, faults and damage.
use super::conc::policy;
use super::core::*;
use super::damage::{damage, dmg, Dmg};
use super::*;
use crate::run::{self, *};
use crate::work::*;
use serde::{Deserialize, Serialize};
use serde_json::to_value;
use simos::{sim, Plan};
use std::collections::{BTreeMap, HashSet};
use std::ffi::{c_char, c_void, CStr, CString};
use std::sync::{Arc, Mutex};
use storm::*;

const E_NOTFOUND: u32 = 2;
const E_HANDLE: u32 = 6;
const E_PARAM: u32 = 87;
const E_BUFFER: u32 = 122;
const E_SUPPORT: u32 = 50;
const BAD: u32 = u32::MAX;

fn cs(s: &str) -> CString {
    CString::new(s).unwrap_or_default()
}
fn hd(v: usize) -> HANDLE {
    v as HANDLE
}
fn err() -> u32 {
    SFileGetLastError()
}
/// archives of this world: (path, names, contents)
struct World {
    arch: Vec<(String, Vec<(String, Vec<u8>)>, Arch)>,
}
impl World {
    fn find(&self, a: usize, name: &str) -> Option<usize> {
        self.arch[a].1.iter().position(|f| norm(&f.0) == norm(name))
    }
}
fn tiny(r: &mut Rng, id: usize) -> Arch {
    let mut a = arch(r, &ArchOpts { max_files: 4, locales: false, big: false });
    a.files.truncate(3);
    for f in &mut a.files {
        f.size = f.size.min(3000);
        f.path = false;
    }
    a.list = if r.chance(4, 5) { 1 } else { 0 };
    a.files.push(FileSpec { name: "common.dat".into(), size: 40 + 3 * id as u64, kind: 1, cseed: id as u64 + 1, comp: *r.pick(&[0u8, 2]), enc: r.below(3) as u8, locale: 0, path: false });
    if r.chance(1, 2) {
        // the same name and size in every archive, but other bytes
        a.files.push(FileSpec { name: "same.dat".into(), size: 57, kind: 1, cseed: id as u64 + 1, comp: 0, enc: 0, locale: 0, path: false });
    }
    if r.chance(1, 2) {
        a.files.push(FileSpec { name: "empty".into(), size: 0, kind: 0, cseed: 0, comp: 0, enc: 0, locale: 0, path: false });
    }
    a
}
fn world(ctx: &mut Ctx, archs: &[Arch]) -> Option<World> {
    sim().fs.put_dirs("/w/d");
    let mut w = World { arch: vec![] };
    for (i, a) in archs.iter().enumerate() {
        let p = format!("/w/d/a{}.mpq", i);
        let (st, r) = build(ctx, a, &i.to_string(), &p, run::plan(1));
        if !ctx.must_finish("build", &st) || !matches!(r, Some(Ok(()))) {
            return None;
        }
        let mut l: Vec<(String, Vec<u8>)> = a.files.iter().map(|f| (f.name.clone(), f.data())).collect();
        if a.list != 0 {
            l.push(("(listfile)".into(), a.listfile().into_bytes()));
        }
        w.arch.push((p, l, a.clone()));
    }
    Some(w)
}

// ---- calls and their results -------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Op {
    k: u8,
    h: u8,
    x: u32,
    y: u32,
}
#[derive(Clone, Debug, PartialEq)]
enum Call {
    Open(usize),
    OpenMissing,
    Create(usize, u32),
    CloseA(usize),
    OpenF(usize, String),
    CloseF(usize),
    Read(usize, u32),
    Seek(usize, i32, u32),
    Size(usize),
    Has(usize, String),
    InfoPos(usize),
    InfoSize(usize),
    InfoSector(usize),
    NameF(usize),
    NameA(usize),
    Enum(usize, u8),
    Extract(usize, String),
    Verify(usize, String),
    VerifyA(usize, u32),
}
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Fail(u32),
    Handle(usize),
    Num(u64),
    Bytes(Vec<u8>),
    Names(Vec<String>),
    Done,
}
struct EnumCtx {
    names: Vec<String>,
    /// stop after so many
    limit: usize,
    /// calls to make from inside the callback
    inner: Vec<(Call, Option<Arc<Shared>>)>,
    depth: u32,
}
/// what enumerations ask for; the first three want everything
const MASKS: [Option<&str>; 12] = [Some("*"), Some("*"), None, Some("*.dat"), Some(""), Some("comm*"), Some("a*"), Some("æ*"), Some("ab*"), Some("**"), Some("a very long mask that no name is as long as, whatever it contains, and nothing matches*"), Some("?")];
extern "C" fn on_file(n: *const c_char, u: *mut c_void) -> bool {
    let c = unsafe { &mut *(u as *mut EnumCtx) };
    c.names.push(unsafe { CStr::from_ptr(n) }.to_string_lossy().into_owned());
    if !c.inner.is_empty() && c.depth < 3 {
        let (call, w) = c.inner[c.names.len() % c.inner.len()].clone();
        if let Some(sh) = w {
            perform(&sh, &call, c.depth + 1, &c.inner);
        }
    }
    c.names.len() < c.limit
}
struct Shared {
    paths: Vec<String>,
    out: String,
}
/// make the call; a failing call's error is read by the same thread right after it
fn perform(sh: &Arc<Shared>, c: &Call, depth: u32, inner: &[(Call, Option<Arc<Shared>>)]) -> Res {
    simos::sched::label(simos::without(|| format!("{:?}{}", c, if depth > 0 { " from a callback" } else { "" })));
    unsafe {
        let mut out: HANDLE = hd(0xdead0);
        let ok = |b: bool, r: Res| if b { r } else { Res::Fail(err()) };
        match c {
            Call::Open(i) => {
                let p = cs(&sh.paths[*i]);
                let b = SFileOpenArchive(p.as_ptr(), 0, 0, &mut out);
                ok(b, Res::Handle(out as usize))
            }
            Call::OpenMissing => {
                let b = SFileOpenArchive(c"/w/d/none.mpq".as_ptr(), 0, 0, &mut out);
                ok(b, Res::Handle(out as usize))
            }
            Call::Create(i, d) => {
                let p = cs(&format!("/w/d/new{}.mpq", i));
                let b = SFileCreateArchive(p.as_ptr(), *d, 16, &mut out);
                ok(b, Res::Handle(out as usize))
            }
            Call::CloseA(h) => ok(SFileCloseArchive(hd(*h)), Res::Done),
            Call::OpenF(h, n) => {
                let p = cs(n);
                let b = SFileOpenFileEx(hd(*h), p.as_ptr(), 0, &mut out);
                ok(b, Res::Handle(out as usize))
            }
            Call::CloseF(h) => ok(SFileCloseFile(hd(*h)), Res::Done),
            Call::Read(h, n) => {
                let mut b = vec![0xa5u8; *n as usize + 8];
                let mut got = 0xeeeeeeee;
                let r = SFileReadFile(hd(*h), b.as_mut_ptr() as *mut c_void, *n, &mut got, std::ptr::null_mut());
                if !r {
                    return Res::Fail(err());
                }
                if got > *n || b[got as usize..].iter().any(|x| *x != 0xa5) {
                    fail("overrun", format!("a read of {} bytes reported {} bytes and wrote beyond them", n, got));
                    return Res::Fail(0);
                }
                b.truncate(got as usize);
                Res::Bytes(b)
            }
            Call::Seek(h, o, m) => {
                let p = SFileSetFilePointer(hd(*h), *o, std::ptr::null_mut(), *m);
                ok(p != BAD, Res::Num(p as u64))
            }
            Call::Size(h) => {
                let mut hi = 77;
                let p = SFileGetFileSize(hd(*h), &mut hi);
                ok(p != BAD, Res::Num(p as u64 | (hi as u64) << 32))
            }
            Call::Has(h, n) => {
                let p = cs(n);
                ok(SFileHasFile(hd(*h), p.as_ptr()), Res::Done)
            }
            Call::InfoPos(h) | Call::InfoSize(h) => {
                let mut v = 0u64;
                let cl = if matches!(c, Call::InfoPos(_)) { 10 } else { 7 };
                let b = SFileGetFileInfo(hd(*h), cl, &mut v as *mut u64 as *mut c_void, 8, std::ptr::null_mut());
                ok(b, Res::Num(v))
            }
            Call::InfoSector(h) => {
                let mut v = 0u32;
                let b = SFileGetFileInfo(hd(*h), 4, &mut v as *mut u32 as *mut c_void, 4, std::ptr::null_mut());
                ok(b, Res::Num(v as u64))
            }
            Call::NameF(h) => {
                let mut b = vec![0u8; 2048];
                let r = SFileGetFileName(hd(*h), b.as_mut_ptr() as *mut c_char);
                b.truncate(b.iter().position(|x| *x == 0).unwrap_or(0));
                ok(r, Res::Bytes(b))
            }
            Call::NameA(h) => {
                let mut b = vec![0u8; 2048];
                let r = SFileGetArchiveName(hd(*h), b.as_mut_ptr() as *mut c_char, 2048);
                b.truncate(b.iter().position(|x| *x == 0).unwrap_or(0));
                ok(r, Res::Bytes(b))
            }
            Call::Enum(h, m) => {
                let m = MASKS[*m as usize % MASKS.len()].map(cs);
                let mut e = EnumCtx { names: vec![], limit: usize::MAX, inner: inner.to_vec(), depth };
                let r = SFileEnumFiles(hd(*h), m.as_ref().map(|m| m.as_ptr()).unwrap_or(std::ptr::null()), std::ptr::null(), Some(on_file), &mut e as *mut EnumCtx as *mut c_void);
                ok(r, Res::Names(e.names))
            }
            Call::Extract(h, n) => {
                let p = cs(n);
                let o = cs(&sh.out);
                ok(SFileExtractFile(hd(*h), p.as_ptr(), o.as_ptr(), 0), Res::Done)
            }
            Call::Verify(h, n) => {
                let p = cs(n);
                ok(SFileVerifyFile(hd(*h), p.as_ptr(), 0), Res::Done)
            }
            Call::VerifyA(h, f) => ok(SFileVerifyArchive(hd(*h), *f), Res::Done),
        }
    }
}

// ---- C11: linearizability ----------------------------------------------------------------------
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
struct State {
    archives: BTreeMap<usize, u8>,
    /// handle -> (archive handle, archive, file, position)
    files: BTreeMap<usize, (usize, u8, u8, u32)>,
}
#[derive(Clone, Debug)]
struct Ev {
    inv: u64,
    ret: u64,
    t: usize,
    c: Call,
    r: Res,
}
/// does the sequential specification allow this result here? changes the state if so
fn allowed(w: &World, s: &mut State, c: &Call, r: &Res, faulty: bool) -> bool {
    let bad_handle = matches!(r, Res::Fail(E_HANDLE));
    let any_fail = matches!(r, Res::Fail(e) if *e != 0);
    match c {
        Call::Open(i) => match r {
            Res::Handle(h) => {
                if *h == 0 || s.archives.contains_key(h) || s.files.contains_key(h) {
                    return false;
                }
                s.archives.insert(*h, *i as u8);
                true
            }
            _ => faulty && any_fail,
        },
        Call::OpenMissing => any_fail,
        Call::Create(..) | Call::VerifyA(..) => true,
        Call::CloseA(h) => {
            if s.archives.contains_key(h) {
                if *r != Res::Done {
                    return false;
                }
                s.archives.remove(h);
                s.files.retain(|_, f| f.0 != *h);
                true
            } else {
                bad_handle
            }
        }
        Call::OpenF(h, n) => match s.archives.get(h) {
            None => bad_handle,
            Some(a) => match (w.find(*a as usize, n), r) {
                (Some(i), Res::Handle(f)) => {
                    if *f == 0 || s.archives.contains_key(f) || s.files.contains_key(f) {
                        return false;
                    }
                    s.files.insert(*f, (*h, *a, i as u8, 0));
                    true
                }
                (Some(_), _) => faulty && any_fail,
                (None, Res::Fail(e)) => *e == E_NOTFOUND,
                _ => false,
            },
        },
        Call::CloseF(h) => {
            if s.files.remove(h).is_some() {
                *r == Res::Done
            } else {
                bad_handle
            }
        }
        Call::Read(h, n) => match s.files.get_mut(h) {
            None => bad_handle,
            Some(f) => {
                let d = &w.arch[f.1 as usize].1[f.2 as usize].1;
                let p = f.3 as usize;
                let e = (p + *n as usize).min(d.len());
                f.3 = e as u32;
                matches!(r, Res::Bytes(b) if b[..] == d[p..e])
            }
        },
        Call::Seek(h, o, m) => match s.files.get_mut(h) {
            None => bad_handle,
            Some(f) => {
                let len = w.arch[f.1 as usize].1[f.2 as usize].1.len() as i64;
                let base = match m {
                    0 => 0,
                    1 => f.3 as i64,
                    _ => len,
                };
                let t = base + *o as i64;
                if t < 0 && any_fail {
                    return true;
                }
                f.3 = t.clamp(0, len) as u32;
                *r == Res::Num(f.3 as u64)
            }
        },
        Call::Size(h) => match s.files.get(h) {
            None => bad_handle,
            Some(f) => *r == Res::Num(w.arch[f.1 as usize].1[f.2 as usize].1.len() as u64),
        },
        Call::Has(h, n) => match s.archives.get(h) {
            None => bad_handle,
            Some(a) => match w.find(*a as usize, n) {
                Some(_) => *r == Res::Done,
                None => matches!(r, Res::Fail(E_NOTFOUND)),
            },
        },
        Call::InfoPos(h) | Call::InfoSize(h) => {
            if let Some(f) = s.files.get(h) {
                let v = if matches!(c, Call::InfoPos(_)) { f.3 as u64 } else { w.arch[f.1 as usize].1[f.2 as usize].1.len() as u64 };
                *r == Res::Num(v)
            } else if s.archives.contains_key(h) {
                any_fail
            } else {
                bad_handle
            }
        }
        Call::InfoSector(h) => {
            if let Some(a) = s.archives.get(h) {
                *r == Res::Num(w.arch[*a as usize].2.sector())
            } else if s.files.contains_key(h) {
                any_fail
            } else {
                bad_handle
            }
        }
        Call::NameF(h) => match s.files.get(h) {
            None => bad_handle,
            Some(f) => matches!(r, Res::Bytes(b) if norm(&String::from_utf8_lossy(b)) == norm(&w.arch[f.1 as usize].1[f.2 as usize].0)),
        },
        Call::NameA(h) => match s.archives.get(h) {
            None => bad_handle,
            Some(a) => matches!(r, Res::Bytes(b) if b[..] == *w.arch[*a as usize].0.as_bytes()),
        },
        Call::Enum(h, m) => match s.archives.get(h) {
            None => bad_handle,
            Some(a) => {
                let x = &w.arch[*a as usize];
                let m = *m as usize % MASKS.len();
                if m > 2 && x.2.list != 0 {
                    // a selection: no strangers, and all that end as asked
                    return match r {
                        Res::Names(n) => n.iter().all(|y| x.1.iter().any(|f| f.0 == *y)) && (m != 3 || x.1.iter().all(|f| !f.0.ends_with(".dat") || n.contains(&f.0))),
                        _ => any_fail,
                    };
                }
                if x.2.list == 0 {
                    return matches!(r, Res::Names(_)) || any_fail;
                }
                match r {
                    Res::Names(n) => {
                        let mut g = n.clone();
                        g.sort();
                        let mut want: Vec<String> = x.1.iter().map(|f| f.0.clone()).collect();
                        want.sort();
                        g == want
                    }
                    _ => faulty && any_fail,
                }
            }
        },
        Call::Extract(h, n) | Call::Verify(h, n) => match s.archives.get(h) {
            None => bad_handle,
            Some(a) => match (w.find(*a as usize, n), r) {
                (Some(_), Res::Done) => true,
                (Some(_), _) => faulty && any_fail,
                (None, Res::Fail(e)) => *e == E_NOTFOUND,
                _ => false,
            },
        },
    }
}
struct Search<'a> {
    w: &'a World,
    h: &'a [Ev],
    faulty: bool,
    memo: HashSet<(u128, State)>,
    budget: u64,
    best: u32,
    stuck: Vec<usize>,
}
impl Search<'_> {
    fn go(&mut self, done: u128, s: &State) -> bool {
        if done.count_ones() as usize == self.h.len() {
            return true;
        }
        if self.budget == 0 || !self.memo.insert((done, s.clone())) {
            return false;
        }
        self.budget -= 1;
        let bound = self.h.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, e)| e.ret).min().unwrap();
        let mut cand = vec![];
        for (i, e) in self.h.iter().enumerate() {
            if done >> i & 1 == 1 || e.inv > bound {
                continue;
            }
            cand.push(i);
            let mut t = s.clone();
            if allowed(self.w, &mut t, &e.c, &e.r, self.faulty) && self.go(done | 1 << i, &t) {
                return true;
            }
        }
        if done.count_ones() >= self.best {
            self.best = done.count_ones();
            self.stuck = cand;
        }
        false
    }
}
fn show(r: &Res) -> String {
    match r {
        Res::Bytes(b) => format!("{} bytes", b.len()),
        Res::Names(n) => format!("{} names", n.len()),
        x => format!("{:?}", x),
    }
}
#[derive(Serialize, Deserialize)]
struct S11 {
    a: Vec<Arch>,
    /// calls made before the threads start
    pre: Vec<Op>,
    t: Vec<Vec<Op>>,
    w: RateSpec,
    pol: u64,
}
fn op11(r: &mut Rng) -> Op {
    let k = *r.pick(&[0u8, 0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 4, 5, 5, 6, 6, 7, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]);
    let h = if r.chance(1, 8) { r.range(10, 15) as u8 } else { r.below(4) as u8 };
    Op { k, h, x: r.u64() as u32, y: r.u64() as u32 }
}
/// A program that opens and closes files for a very long time.
#[derive(Serialize, Deserialize)]
struct Churn {
    churn: u64,
    a: Arch,
    /// every so many files the archive is opened once more and closed again
    again: u64,
}
fn run_churn(ctx: &mut Ctx, c: Churn) {
    let n = c.churn.min(140_000);
    crate::run::long_run();
    let Some(w) = world(ctx, &[c.a]) else { return };
    let Some((name, data)) = w.arch[0].1.iter().find(|f| f.0 == "common.dat").cloned() else { return };
    let (path, again) = (cs(&w.arch[0].0), c.again.max(1));
    feat("very many handles");
    simos::phase(run::plan(1));
    let st = ctx.single(move || {
        let cname = cs(&name);
        let open_archive = || {
            let mut h: HANDLE = std::ptr::null_mut();
            unsafe { SFileOpenArchive(path.as_ptr(), 0, 0, &mut h) }.then_some(h as usize)
        };
        let open = |a: usize| {
            let mut h: HANDLE = std::ptr::null_mut();
            unsafe { SFileOpenFileEx(hd(a), cname.as_ptr(), 0, &mut h) }.then_some(h as usize)
        };
        let read = |h: usize| {
            let mut b = vec![0u8; data.len() + 1];
            let mut got = 0u32;
            unsafe {
                SFileSetFilePointer(hd(h), 0, std::ptr::null_mut(), 0);
                SFileReadFile(hd(h), b.as_mut_ptr() as *mut c_void, data.len() as u32, &mut got, std::ptr::null_mut());
            }
            got as usize == data.len() && b[..data.len()] == data[..]
        };
        let mut seen = HashSet::new();
        let mut new = |h: usize, what: &str| {
            if h == 0 || !simos::without(|| seen.insert(h)) {
                fail("handle-reused", format!("handle {} was given out twice (or is null), the second time for {}", h, what));
                return false;
            }
            true
        };
        let Some(arc) = open_archive() else { return fail("churn-open", format!("the archive cannot be opened: {}", err())) };
        let Some(keep) = open(arc) else { return fail("churn-open", format!("the file cannot be opened: {}", err())) };
        if !new(arc, "an archive") || !new(keep, "a file") {
            return;
        }
        let mut first = vec![];
        for i in 0..n {
            let Some(h) = open(arc) else { return fail("churn-open", format!("after {} files the next one cannot be opened: {}", i, err())) };
            if !new(h, "a file") {
                return;
            }
            if i % 1024 == 0 && !(read(h) && read(keep)) {
                return fail("churn-read", format!("after {} files the open ones have other contents (error {})", i, err()));
            }
            if !SFileCloseFile(hd(h)) {
                return fail("churn-close", format!("file handle {} cannot be closed: {}", h, err()));
            }
            if i < 50 {
                first.push(h);
            }
            if i % again == 0 {
                let Some(b) = open_archive() else { return fail("churn-open", format!("after {} files the archive cannot be opened again: {}", i, err())) };
                if !new(b, "an archive") {
                    return;
                }
                if !SFileCloseArchive(hd(b)) {
                    return fail("churn-close", format!("archive handle {} cannot be closed: {}", b, err()));
                }
                first.push(b);
            }
        }
        if !read(keep) {
            return fail("churn-read", format!("after {} files the one kept open has other contents (error {})", n, err()));
        }
        for h in first {
            if SFileCloseFile(hd(h)) || SFileCloseArchive(hd(h)) {
                return fail("stale-handle", format!("handle {} was closed twice", h));
            }
        }
        if !SFileCloseArchive(hd(arc)) || SFileCloseFile(hd(keep)) {
            fail("churn-close", "the archive cannot be closed or leaves its file open".into());
        }
    });
    ctx.must_finish("API calls", &st);
}
fn gen11(r: &mut Rng, i: u64, _t: &str) -> Value {
    if i % 900 == 40 {
        let mut a = tiny(r, 0);
        a.crc = false;
        return to_value(Churn { churn: 66_000, a, again: r.range(300, 900) }).unwrap();
    }
    let n = r.range(1, 2) as usize;
    let a = (0..n).map(|i| tiny(r, i)).collect();
    let mut pre = vec![];
    if r.chance(4, 5) {
        for i in 0..r.range(1, 2) {
            pre.push(Op { k: 0, h: i as u8, x: r.u64() as u32, y: 0 });
        }
        for i in 0..r.below(4) {
            pre.push(Op { k: 2, h: r.below(2) as u8, x: r.u64() as u32, y: i as u32 });
        }
    }
    if r.chance(1, 100) {
        // a long life before
        for _ in 0..r.range(100, 400) {
            pre.push(op11(r));
        }
    }
    let nt = r.range(2, 4);
    let t = (0..nt).map(|_| (0..r.range(1, 10)).map(|_| op11(r)).collect()).collect();
    // two threads hammering the same handles
    let w = match r.below(5) {
        0 => RateSpec { short: 100, eintr: 50, read_err: 60, meta_err: 20, ..Default::default() },
        1 => RateSpec::benign(r),
        _ => RateSpec::default(),
    };
    let mut s = S11 { a, pre, t, w, pol: r.u64() >> 12 };
    if r.chance(1, 3) {
        // a focused race: closing against using
        let kind = r.below(4);
        for (i, t) in s.t.iter_mut().enumerate() {
            t.truncate(4);
            let k = match (kind, i) {
                (0, 0) => 1,
                (0, _) => 2,
                (1, 0) => 1,
                (1, _) => *r.pick(&[4u8, 5, 6, 3]),
                (2, _) => *r.pick(&[4u8, 5]),
                _ => *r.pick(&[0u8, 2]),
            };
            t.insert(0, Op { k, h: 0, x: r.u64() as u32, y: 0 });
            t.push(Op { k: *r.pick(&[2u8, 4, 6, 7]), h: 0, x: 1, y: 0 });
        }
    }
    to_value(s).unwrap()
}
#[derive(Default)]
struct Slots {
    a: Vec<usize>,
    f: Vec<usize>,
    closed: Vec<usize>,
    seen: Vec<usize>,
}
impl Slots {
    fn pick(&self, h: u8, file: bool) -> usize {
        let (own, other) = if file { (&self.f, &self.a) } else { (&self.a, &self.f) };
        match h {
            0..=9 => *own.get(h as usize % own.len().max(1)).unwrap_or(&0),
            10 => 0,
            11 => *other.first().unwrap_or(&3),
            12 => *self.closed.last().unwrap_or(&9),
            13 => self.seen.iter().max().unwrap_or(&0) + 1,
            14 => usize::MAX,
            _ => (self.seen.iter().max().unwrap_or(&0)).wrapping_sub(1),
        }
    }
}
fn call11(w: &World, sl: &Slots, o: &Op) -> Call {
    let name = |h: usize| -> String {
        // any archive's names: the handle may change hands meanwhile
        let a = &w.arch[h.wrapping_add(o.x as usize) % w.arch.len()].1;
        match o.x >> 8 & 7 {
            0 => "no such file".into(),
            1 => "COMMON.DAT".into(),
            2 => "same.dat".into(),
            _ => a[(o.x as usize >> 4) % a.len()].0.clone(),
        }
    };
    let ha = sl.pick(o.h, false);
    let hf = sl.pick(o.h, true);
    match o.k {
        0 => {
            if o.x % 16 == 0 {
                Call::OpenMissing
            } else {
                Call::Open(o.x as usize % w.arch.len())
            }
        }
        1 => Call::CloseA(ha),
        2 => Call::OpenF(ha, name(ha)),
        3 => Call::CloseF(hf),
        4 => Call::Read(hf, *[0u32, 1, 7, 40, 100, 5000].get(o.x as usize % 6).unwrap()),
        5 => Call::Seek(hf, (o.x % 200) as i32 - if o.y % 3 == 2 { 150 } else { 20 }, o.y % 3),
        6 => Call::Size(hf),
        7 => Call::Has(ha, name(ha)),
        8 => Call::InfoPos(if o.x % 8 == 0 { ha } else { hf }),
        9 => Call::InfoSize(if o.x % 8 == 0 { ha } else { hf }),
        10 => Call::InfoSector(if o.x % 8 == 0 { hf } else { ha }),
        11 => Call::NameF(hf),
        12 => Call::NameA(ha),
        13 => Call::Enum(ha, (o.y >> 4) as u8),
        14 => Call::Extract(ha, name(ha)),
        15 => Call::Verify(ha, name(ha)),
        _ => Call::VerifyA(ha, [0u32, 0x10, 0x20, 0x30, 0xff][o.x as usize % 5]),
    }
}
fn step11(w: &World, sl: &Mutex<Slots>, hist: &Mutex<Vec<Ev>>, clock: &std::sync::atomic::AtomicU64, t: usize, n: usize, o: &Op) {
    use std::sync::atomic::Ordering::Relaxed;
    let (call, sh) = simos::without(|| {
        let s = sl.lock().unwrap();
        (call11(w, &s, o), Arc::new(Shared { paths: w.arch.iter().map(|a| a.0.clone()).collect(), out: format!("/w/x/t{}/{}", t, n) }))
    });
    let inv = clock.fetch_add(1, Relaxed);
    let res = perform(&sh, &call, 0, &[]);
    let ret = clock.fetch_add(1, Relaxed);
    simos::without(|| {
        let mut s = sl.lock().unwrap();
        match (&call, &res) {
            (Call::Open(_), Res::Handle(h)) => {
                s.seen.push(*h);
                if (o.y as usize) < s.a.len() && o.y % 2 == 1 {
                    let k = o.y as usize % s.a.len();
                    s.a[k] = *h;
                } else if s.a.len() < 3 {
                    s.a.push(*h);
                } else {
                    let k = o.y as usize % 3;
                    s.a[k] = *h;
                }
            }
            (Call::OpenF(..), Res::Handle(h)) => {
                s.seen.push(*h);
                if s.f.len() < 4 {
                    s.f.push(*h);
                } else {
                    let k = o.y as usize % 4;
                    s.f[k] = *h;
                }
            }
            (Call::CloseA(h), Res::Done) | (Call::CloseF(h), Res::Done) => {
                feat("handle closed");
                s.closed.push(*h)
            }
            (_, Res::Fail(e)) => feat(&format!("refused with {}", e)),
            _ => {}
        }
        if let (Call::Extract(h, n), Res::Done) = (&call, &res) {
            // whichever archive the handle meant
            let d = sim().fs.get(&sh.out);
            let fits = w.arch.iter().any(|a| a.1.iter().any(|f| norm(&f.0) == norm(n) && Some(&f.1) == d.as_ref()));
            if !fits {
                fail("extract-wrong", format!("extracting {} through handle {} reported success, but the file holds {:?} bytes that are nobody's", n, h, d.map(|d| d.len())));
            }
        }
        hist.lock().unwrap().push(Ev { inv, ret, t, c: call, r: res });
    });
}
fn run11(ctx: &mut Ctx, v: &Value) {
    if let Ok(c) = serde_json::from_value::<Churn>(v.clone()) {
        return run_churn(ctx, c);
    }
    let Ok(s) = serde_json::from_value::<S11>(v.clone()) else { return };
    if s.a.is_empty() || s.a.iter().any(|a| a.has_duplicates()) {
        return;
    }
    let Some(w) = world(ctx, &s.a) else { return };
    let w = Arc::new(w);
    let sl = Arc::new(Mutex::new(Slots::default()));
    let hist = Arc::new(Mutex::new(vec![]));
    let clock = Arc::new(std::sync::atomic::AtomicU64::new(1));
    simos::phase(run::plan(1));
    {
        let (w, sl, hist, clock, pre) = (w.clone(), sl.clone(), hist.clone(), clock.clone(), s.pre.clone());
        let st = ctx.single(move || {
            for (i, o) in pre.iter().enumerate() {
                step11(&w, &sl, &hist, &clock, 99, i, o);
            }
        });
        if !ctx.must_finish("API calls", &st) {
            return;
        }
    }
    simos::phase(Plan { seed: ctx.seed(), rates: s.w.rates(), ..Default::default() });
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, ops) in s.t.iter().enumerate() {
        let (w, sl, hist, clock, ops) = (w.clone(), sl.clone(), hist.clone(), clock.clone(), ops.clone());
        bodies.push(Box::new(move || {
            for (i, o) in ops.iter().enumerate() {
                step11(&w, &sl, &hist, &clock, t, i, o);
            }
        }));
    }
    let mut r = Rng::new(s.pol);
    let st = ctx.multi(policy(&mut r, 400), bodies);
    if !ctx.must_finish("API calls", &st) || failed() {
        return;
    }
    // afterwards every handle ever seen is probed once: closed ones must stay dead, open ones alive
    simos::phase(run::plan(1));
    {
        let (w, sl, hist, clock) = (w.clone(), sl.clone(), hist.clone(), clock.clone());
        let st = ctx.single(move || {
            let all: Vec<usize> = simos::without(|| sl.lock().unwrap().seen.clone());
            for h in all {
                for c in [Call::Size(h), Call::NameA(h)] {
                    let inv = clock.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let sh = Arc::new(Shared { paths: w.arch.iter().map(|a| a.0.clone()).collect(), out: String::new() });
                    let r = perform(&sh, &c, 0, &[]);
                    simos::without(|| {
                        let ret = clock.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        hist.lock().unwrap().push(Ev { inv, ret, t: 98, c, r })
                    });
                }
            }
        });
        if !ctx.must_finish("API calls", &st) || failed() {
            return;
        }
    }
    let mut h = hist.lock().unwrap().clone();
    h.sort_by_key(|e| e.inv);
    let mut seen = HashSet::new();
    for e in &h {
        if let Res::Handle(x) = e.r {
            if x == 0 || !seen.insert(x) {
                return fail("handle-reused", format!("handle {} was given out twice (or is null)", x));
            }
        }
    }
    // calls nobody overlapped, from the start on
    let mut start = State::default();
    let calm = h.windows(2).position(|e| e[0].ret > e[1].inv).unwrap_or(h.len());
    let mut said = vec![];
    for e in h.drain(..calm) {
        said.push(format!("t{} {:?} -> {}", e.t, e.c, show(&e.r)));
        if !allowed(&w, &mut start, &e.c, &e.r, e.t < 90 && s.w.read_err + s.w.meta_err > 0) {
            let n = said.len().saturating_sub(40);
            return fail("not-sequential", format!("a call alone is answered wrongly: {}", said[n..].join("; ")));
        }
    }
    if h.len() > 120 {
        // leave out calls that change nothing
        let mut k = h.len();
        h.retain(|e| {
            let pure = matches!(e.c, Call::VerifyA(..) | Call::NameF(_) | Call::Verify(..) | Call::OpenMissing);
            if pure && k > 120 {
                k -= 1;
                return false;
            }
            true
        });
        h.truncate(120);
        // a truncated history must stay complete in time: drop nothing that an earlier call overlaps
    }
    let faulty = s.w.read_err + s.w.meta_err > 0;
    let mut se = Search { w: &w, h: &h, faulty, memo: HashSet::new(), budget: 60_000, best: 0, stuck: vec![] };
    if se.go(0, &start) {
        feat("linearized");
    } else if se.budget == 0 {
        feat("search gave up");
    } else {
        let stuck: Vec<String> = se.stuck.iter().map(|i| format!("t{} {:?} -> {}", h[*i].t, h[*i].c, show(&h[*i].r))).collect();
        let all: Vec<String> = h.iter().map(|e| format!("{}..{} t{} {:?} -> {}", e.inv, e.ret, e.t, e.c, show(&e.r))).collect();
        fail("not-linearizable", format!("no order of the calls explains the results; stuck at [{}]; history: {}", stuck.join("; "), all.join("; ")));
    }
}

// ---- C12: cursor, buffers, errors --------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S12 {
    a: Vec<Arch>,
    t: Vec<Vec<Op>>,
    seeds: Vec<u64>,
    pol: u64,
}
fn gen12(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a: Vec<Arch> = (0..r.range(1, 2) as usize).map(|i| tiny(r, i)).collect();
    if r.chance(1, 15) {
        // larger than any buffer on the way
        let size = match r.below(4) {
            0 => *r.pick(&[0x1_0000u64, 0x2_0000, 0x4_0000]) + r.below(3) - 1,
            1 => r.range(900_000, 1_200_000),
            _ => r.range(20_000, 300_000),
        };
        a[0].files.push(FileSpec { name: "large.bin".into(), size, kind: r.below(4) as u8, cseed: r.u64() >> 12, comp: *r.pick(&[0u8, 2]), enc: r.below(2) as u8, locale: 0, path: false });
    }
    let long = r.chance(1, 80);
    let nt = if long { 1 } else { *r.pick(&[1u64, 1, 2, 3]) };
    let t = (0..nt)
        .map(|_| {
            (0..if long { r.range(200, 600) } else { r.range(5, 50) })
                .map(|_| Op { k: *r.pick(&[0u8, 0, 0, 0, 1, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]), h: r.below(16) as u8, x: r.u64() as u32, y: r.u64() as u32 })
                .collect()
        })
        .collect();
    to_value(S12 { a, t, seeds: (0..nt).map(|_| r.u64() >> 12).collect(), pol: r.u64() >> 12 }).unwrap()
}
const CAN: u8 = 0xc7;
/// a buffer of n bytes at a chosen alignment with guard bytes around it
struct Guarded {
    v: Vec<u64>,
    off: usize,
    n: usize,
}
impl Guarded {
    fn new(n: usize, align: usize) -> Guarded {
        let v = vec![u64::from_ne_bytes([CAN; 8]); n / 8 + 6];
        Guarded { v, off: 16 + align % 8, n }
    }
    fn ptr(&mut self) -> *mut u8 {
        unsafe { (self.v.as_mut_ptr() as *mut u8).add(self.off) }
    }
    fn all(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.v.as_ptr() as *const u8, self.v.len() * 8) }
    }
    fn data(&self) -> &[u8] {
        &self.all()[self.off..self.off + self.n]
    }
    /// nothing outside the first `used` bytes changed
    fn intact(&self, used: usize) -> bool {
        self.all().iter().enumerate().all(|(i, b)| (i >= self.off && i < self.off + used) || *b == CAN)
    }
}
struct Cur {
    h: usize,
    ar: usize,
    f: usize,
    pos: u64,
    open: bool,
}
fn thread12(w: &World, ops: &[Op], seed: u64, me: u32) {
    let mut r = Rng::new(seed);
    let mut arch: Vec<usize> = vec![];
    for p in &w.arch {
        let mut h: HANDLE = std::ptr::null_mut();
        let c = cs(&p.0);
        if !unsafe { SFileOpenArchive(c.as_ptr(), 0, 0, &mut h) } {
            return fail("open-failed", format!("an intact archive could not be opened: error {}", err()));
        }
        arch.push(h as usize);
    }
    let mut cur: Vec<Cur> = vec![];
    let mut locale = 0u32;
    if SFileGetLocale() != 0 {
        return fail("locale-shared", "a new thread starts with another thread's locale".into());
    }
    if ops.first().map(|o| o.x % 2 == 0).unwrap_or(false) {
        locale = 0x400 + me;
        let o = SFileSetLocale(locale);
        if o != 0 {
            return fail("locale-shared", format!("a new thread's previous locale was {}", o));
        }
    }
    // a value only this thread sets as its error
    let mut mark: Option<u32> = None;
    let failing = |what: &str, want: &[u32]| -> bool {
        let e = err();
        if e == 0 || (!want.is_empty() && !want.contains(&e)) {
            fail(&format!("error-code {}", what), format!("{} failed with last error {} (expected one of {:?})", what, e, want));
            return false;
        }
        feat(&format!("{} refused with {}", what, e));
        true
    };
    for o in ops {
        if failed() {
            return;
        }
        if let Some(m) = mark.take() {
            std::thread::yield_now();
            if err() != m {
                return fail("error-shared", format!("the thread's last error changed from {} to {} without a call of its own", m, err()));
            }
        }
        if SFileGetLocale() != locale {
            return fail("locale-shared", format!("the thread's locale changed from {} to {}", locale, SFileGetLocale()));
        }
        let ci = if cur.is_empty() { 0 } else { o.h as usize % cur.len() };
        let len = cur.get(ci).map(|c| w.arch[c.ar].1[c.f].1.len() as u64).unwrap_or(0);
        match o.k {
            // read
            0 => {
                let Some(c) = cur.get_mut(ci) else { continue };
                let n = match o.x % 9 {
                    0 => 0,
                    1 => 1,
                    2 => len,
                    3 => len - c.pos,
                    4 => len + 1,
                    5 => r.range(0, 64),
                    6 => (len - c.pos).saturating_sub(1),
                    7 => (len - c.pos) + 1,
                    _ => r.range(0, len.max(1)),
                } as usize;
                let mut b = Guarded::new(n, o.y as usize);
                let mut got = 0x5555_5555u32;
                let withcount = o.y % 4 != 0;
                let claim = n as u32;
                let ok = unsafe { SFileReadFile(hd(c.h), b.ptr() as *mut c_void, claim, if withcount { &mut got } else { std::ptr::null_mut() }, std::ptr::null_mut()) };
                if !c.open {
                    if ok {
                        return fail("stale-read", "a closed file handle could be read".into());
                    }
                    if !failing("read", &[E_HANDLE]) {
                        return;
                    }
                    continue;
                }
                let d = &w.arch[c.ar].1[c.f].1;
                let e = (c.pos as usize + n).min(d.len());
                let want = &d[c.pos as usize..e];
                if !ok {
                    return fail("read-failed", format!("reading {} bytes at {} of {} failed with error {}", n, c.pos, len, err()));
                }
                if withcount && got as usize != want.len() {
                    return fail("read-count", format!("reading {} bytes at {} of {} reported {} bytes instead of {}", n, c.pos, len, got, want.len()));
                }
                if b.data()[..want.len()] != *want {
                    return fail("read-bytes", format!("reading {} bytes at {} of {} gave other bytes than the file's", n, c.pos, len));
                }
                if !b.intact(want.len()) {
                    return fail("overrun", format!("reading {} bytes at {} of {} wrote outside the {} bytes read", n, c.pos, len, want.len()));
                }
                feat(if want.len() < n { "short read at end" } else if n == 0 { "empty read" } else { "full read" });
                c.pos = e as u64;
            }
            // seek
            1 => {
                let Some(c) = cur.get_mut(ci) else { continue };
                let m = o.y % 4;
                let off: i64 = match o.x % 12 {
                    0 => 0,
                    1 => len as i64,
                    2 => -(len as i64),
                    3 => len as i64 + 1,
                    4 => -(len as i64) - 1,
                    5 => i32::MAX as i64,
                    6 => i32::MIN as i64,
                    7 => -1,
                    8 => 1,
                    9 => -(c.pos as i64),
                    _ => r.range(0, 2 * len + 4) as i64 - len as i64,
                };
                let wide = r.chance(1, 3);
                let mut hi: i32 = if wide {
                    match r.below(6) {
                        0 => 0,
                        1 => 1,
                        2 => -1,
                        3 => i32::MAX,
                        4 => i32::MIN,
                        _ => (off >> 32) as i32,
                    }
                } else {
                    0
                };
                let lo = off as i32;
                let eff: i128 = if wide { ((hi as i64 as i128) << 32) + (lo as u32 as i128) } else { lo as i128 };
                let hi0 = hi;
                let p = unsafe { SFileSetFilePointer(hd(c.h), lo, if wide { &mut hi } else { std::ptr::null_mut() }, m) };
                let base = match m {
                    0 => 0,
                    1 => c.pos as i128,
                    2 => len as i128,
                    _ => {
                        if p != BAD {
                            return fail("seek-method", "an invalid move method was accepted".into());
                        }
                        if !failing("seek", if c.open { &[E_PARAM] } else { &[E_HANDLE, E_PARAM] }) {
                            return;
                        }
                        continue;
                    }
                };
                if !c.open {
                    if p != BAD || !failing("seek", &[E_HANDLE]) {
                        return fail("stale-seek", "a closed file handle could be positioned".into());
                    }
                    continue;
                }
                let t = base + eff;
                if t < 0 {
                    feat("seek before start");
                    if p == BAD {
                        if !failing("seek", &[]) {
                            return;
                        }
                        continue;
                    }
                } else if t > len as i128 {
                    feat("seek past end");
                } else {
                    feat("seek inside");
                }
                let want = t.clamp(0, len as i128) as u64;
                if p as u64 != want & 0xffff_ffff || (wide && hi as u32 as u64 != want >> 32) {
                    return fail("seek-position", format!("seeking to {}{:+} (high {:?}) in {} bytes from {} returned {} (high {:?}) instead of {}", ["start", "current", "end"][m as usize], eff, wide.then_some(hi0), len, c.pos, p, wide.then_some(hi), want));
                }
                c.pos = want;
            }
            // sizes and positions
            2 => {
                let Some(c) = cur.get(ci) else { continue };
                let mut hi = 99u32;
                let z = unsafe { SFileGetFileSize(hd(c.h), if o.x % 2 == 0 { &mut hi } else { std::ptr::null_mut() }) };
                if !c.open {
                    if z != BAD || !failing("size", &[E_HANDLE]) {
                        return fail("stale-size", "a closed file handle has a size".into());
                    }
                } else if z as u64 != len || (o.x % 2 == 0 && hi != 0) {
                    return fail("size", format!("size {} (high {}) instead of {}", z, hi, len));
                }
            }
            // information with every buffer size
            3 | 4 => {
                let on_arch = o.x % 3 == 0;
                let cl = *[7u32, 10, 1, 2, 3, 4, 0, 5, 99, u32::MAX].get(o.y as usize % 10).unwrap();
                let (h, open) = if on_arch { (arch[o.x as usize % arch.len()], true) } else { cur.get(ci).map(|c| (c.h, c.open)).unwrap_or((0, false)) };
                let need = match (on_arch, cl) {
                    (false, 7) | (false, 10) | (true, 1) => 8usize,
                    (true, 2) | (true, 3) | (true, 4) => 4,
                    _ => 0,
                };
                let n = *r.pick(&[0usize, 1, need.saturating_sub(1), need, need, need + 1, need + 9]);
                let mut b = Guarded::new(n, r.below(8) as usize);
                let mut sz = 0x7777u32;
                let null = n == 0 && r.chance(1, 2);
                let p = if null { std::ptr::null_mut() } else { b.ptr() as *mut c_void };
                let want_sz = r.chance(1, 2);
                let ok = unsafe { SFileGetFileInfo(hd(h), cl, p, n as u32, if want_sz { &mut sz } else { std::ptr::null_mut() }) };
                let fits = open && need != 0 && n >= need;
                if ok != fits {
                    return fail("info-result", format!("information class {} of {} with a buffer of {} bytes returned {}", cl, if on_arch { "an archive" } else { "a file" }, n, ok));
                }
                if !ok && !failing("info", &[if !open { E_HANDLE } else if need == 0 { E_SUPPORT } else { E_BUFFER }]) {
                    return;
                }
                if open && need != 0 && want_sz && sz != need as u32 {
                    return fail("info-size", format!("information class {} says it needs {} bytes instead of {}", cl, sz, need));
                }
                if !b.intact(if ok { need } else { 0 }) {
                    return fail("overrun", format!("information class {} with a buffer of {} bytes wrote outside it", cl, n));
                }
                if ok {
                    let mut v = 0u64;
                    for (i, x) in b.data()[..need].iter().enumerate() {
                        v |= (*x as u64) << (8 * i);
                    }
                    let want = match (on_arch, cl) {
                        (false, 7) => Some(len),
                        (false, 10) => Some(cur[ci].pos),
                        (true, 4) => Some(w.arch[o.x as usize % arch.len()].2.sector()),
                        (true, 1) => Some(simos::without(|| sim().fs.get(&w.arch[o.x as usize % arch.len()].0).map(|d| d.len()).unwrap_or(0)) as u64),
                        _ => None,
                    };
                    if want.is_some() && want != Some(v) {
                        return fail("info-value", format!("information class {} of {} is {} instead of {:?}", cl, if on_arch { "an archive" } else { "a file" }, v, want));
                    }
                    feat(&format!("info class {}", cl));
                }
            }
            // names
            5 => {
                let k = o.x as usize % arch.len();
                let p = &w.arch[k].0;
                let n = *r.pick(&[0usize, 1, p.len() - 1, p.len(), p.len() + 1, p.len() + 2, 300]);
                let mut b = Guarded::new(n, r.below(8) as usize);
                let ok = unsafe { SFileGetArchiveName(hd(arch[k]), b.ptr() as *mut c_char, n as u32) };
                if ok != (n > p.len()) {
                    return fail("name-result", format!("the archive's name of {} bytes with a buffer of {} bytes: {}", p.len(), n, ok));
                }
                if !ok && !failing("name", &[if n == 0 { E_PARAM } else { E_BUFFER }]) {
                    return;
                }
                if !b.intact(if ok { p.len() + 1 } else { 0 }) {
                    return fail("overrun", "the archive's name was written outside its buffer".into());
                }
                if ok && (b.data()[..p.len()] != *p.as_bytes() || b.data()[p.len()] != 0) {
                    return fail("name", "another archive name came back".into());
                }
            }
            6 => {
                let Some(c) = cur.get(ci) else { continue };
                let p = w.arch[c.ar].1[c.f].0.clone();
                let mut b = Guarded::new(p.len() + 1, r.below(8) as usize);
                let ok = unsafe { SFileGetFileName(hd(c.h), b.ptr() as *mut c_char) };
                if ok != c.open {
                    return fail("name-result", format!("the name of {} handle: {}", if c.open { "an open" } else { "a closed" }, ok));
                }
                if !ok && !failing("name", &[E_HANDLE]) {
                    return;
                }
                if !b.intact(if ok { p.len() + 1 } else { 0 }) || (ok && b.data()[..p.len()] != *p.as_bytes()) {
                    return fail("name", "another file name came back, or it was written outside its space".into());
                }
            }
            // open
            7 | 8 => {
                let k = o.x as usize % arch.len();
                let f = o.y as usize % w.arch[k].1.len();
                let n = cs(&w.arch[k].1[f].0);
                let mut h: HANDLE = std::ptr::null_mut();
                if !unsafe { SFileOpenFileEx(hd(arch[k]), n.as_ptr(), 0, &mut h) } {
                    return fail("open-failed", format!("{} could not be opened: error {}", describe(&w.arch[k].2, &w.arch[k].1[f].0), err()));
                }
                if cur.iter().any(|c| c.h == h as usize) || arch.contains(&(h as usize)) {
                    return fail("handle-reused", format!("handle {} was given out before", h as usize));
                }
                let c = Cur { h: h as usize, ar: k, f, pos: 0, open: true };
                if cur.len() < 5 {
                    cur.push(c);
                } else {
                    let k = r.below(5) as usize;
                    SFileCloseFile(hd(cur[k].h));
                    cur[k] = c;
                }
            }
            9 => {
                let Some(c) = cur.get_mut(ci) else { continue };
                let ok = SFileCloseFile(hd(c.h));
                if ok != c.open {
                    return fail("close-result", format!("closing {} handle: {}", if c.open { "an open" } else { "a closed" }, ok));
                }
                if !ok && !failing("close", &[E_HANDLE]) {
                    return;
                }
                c.open = false;
            }
            // the error belongs to the thread
            10 => {
                let v = 1000 + me * 100_000 + o.x % 1000;
                SFileSetLastError(v);
                mark = Some(v);
            }
            // null arguments
            11 => unsafe {
                let mut h: HANDLE = std::ptr::null_mut();
                let nm = c"common.dat";
                // not text in the encoding the API takes
                let odd = c"common\xE9.dat";
                let there = c"/w/odd.out";
                extern "C" fn on_any(_: *const c_char, _: *mut c_void) -> bool {
                    true
                }
                let bad = match o.x % 22 {
                    9 => SFileOpenArchive(odd.as_ptr(), 0, 0, &mut h),
                    10 => SFileCreateArchive(odd.as_ptr(), 2, 16, &mut h),
                    11 => SFileOpenFileEx(hd(arch[0]), odd.as_ptr(), 0, &mut h),
                    12 => SFileHasFile(hd(arch[0]), odd.as_ptr()),
                    13 => SFileExtractFile(hd(arch[0]), odd.as_ptr(), there.as_ptr(), 0),
                    14 => SFileExtractFile(hd(arch[0]), nm.as_ptr(), odd.as_ptr(), 0),
                    15 => SFileVerifyFile(hd(arch[0]), odd.as_ptr(), 0),
                    16 => SFileEnumFiles(hd(arch[0]), odd.as_ptr(), std::ptr::null(), Some(on_any), std::ptr::null_mut()),
                    17 => SFileCreateArchive(std::ptr::null(), 2, 16, &mut h),
                    18 => SFileCreateArchive(there.as_ptr(), 2, 16, std::ptr::null_mut()),
                    19 => SFileExtractFile(hd(arch[0]), std::ptr::null(), there.as_ptr(), 0),
                    20 => SFileGetArchiveName(hd(arch[0]), std::ptr::null_mut(), 10),
                    21 => SFileGetFileName(hd(cur.get(ci).map(|c| c.h).unwrap_or(0)), std::ptr::null_mut()),
                    0 => SFileOpenArchive(std::ptr::null(), 0, 0, &mut h),
                    1 => SFileOpenArchive(nm.as_ptr(), 0, 0, std::ptr::null_mut()),
                    2 => SFileOpenFileEx(hd(arch[0]), std::ptr::null(), 0, &mut h),
                    3 => SFileOpenFileEx(hd(arch[0]), nm.as_ptr(), 0, std::ptr::null_mut()),
                    4 => SFileReadFile(hd(cur.get(ci).map(|c| c.h).unwrap_or(0)), std::ptr::null_mut(), 4, std::ptr::null_mut(), std::ptr::null_mut()),
                    5 => SFileHasFile(hd(arch[0]), std::ptr::null()),
                    6 => SFileExtractFile(hd(arch[0]), nm.as_ptr(), std::ptr::null(), 0),
                    7 => SFileVerifyFile(hd(arch[0]), std::ptr::null(), 0),
                    _ => SFileEnumFiles(hd(arch[0]), std::ptr::null(), std::ptr::null(), None, std::ptr::null_mut()),
                };
                if bad {
                    return fail("null-accepted", format!("call {} with an unusable argument succeeded", o.x % 22));
                }
                if simos::without(|| sim().fs.get("/w/odd.out").is_some()) {
                    return fail("null-accepted", format!("call {} with an unusable argument left a file", o.x % 22));
                }
                if !failing("null argument", &[E_PARAM]) {
                    return;
                }
            },
            12 => {
                let k = o.x as usize % arch.len();
                let f = o.y as usize % w.arch[k].1.len();
                let known = o.x / 16 % 2 == 0;
                let n = cs(if known { &w.arch[k].1[f].0 } else { "not\\in here" });
                let ok = unsafe { SFileHasFile(hd(arch[k]), n.as_ptr()) };
                if ok != known {
                    return fail("has-file", format!("a {} file: {}", if known { "stored" } else { "missing" }, ok));
                }
                if !ok && !failing("has-file", &[E_NOTFOUND]) {
                    return;
                }
            }
            _ => {
                let l = 0x400 + (o.x & 0xff);
                let old = SFileSetLocale(l);
                if old != locale {
                    return fail("locale-shared", format!("the previous locale was {} instead of {}", old, locale));
                }
                locale = l;
            }
        }
    }
    for c in &mut cur {
        if c.open && o_close(ops) {
            SFileCloseFile(hd(c.h));
            c.open = false;
        }
    }
    for a in &arch {
        if !SFileCloseArchive(hd(*a)) {
            return fail("close-result", format!("an open archive could not be closed: error {}", err()));
        }
    }
    // closing the archives closed their files
    for c in &cur {
        let mut b = [0u8; 4];
        if unsafe { SFileReadFile(hd(c.h), b.as_mut_ptr() as *mut c_void, 1, std::ptr::null_mut(), std::ptr::null_mut()) } {
            return fail("stale-read", "a file handle outlived its archive".into());
        }
        feat("files closed with their archive");
    }
}
fn o_close(ops: &[Op]) -> bool {
    ops.last().map(|o| o.y % 3 == 0).unwrap_or(false)
}
fn run12(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S12>(v.clone()) else { return };
    if s.a.is_empty() || s.a.iter().any(|a| a.has_duplicates()) || s.seeds.len() < s.t.len() {
        return;
    }
    let Some(w) = world(ctx, &s.a) else { return };
    let w = Arc::new(w);
    simos::phase(run::plan(1));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, ops) in s.t.iter().enumerate() {
        let (w, ops, seed) = (w.clone(), ops.clone(), s.seeds[t]);
        bodies.push(Box::new(move || thread12(&w, &ops, seed, t as u32 + 1)));
    }
    let mut r = Rng::new(s.pol);
    let st = ctx.multi(policy(&mut r, 1000), bodies);
    ctx.must_finish("API calls", &st);
}

// ---- C13: progress -----------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S13 {
    a: Vec<Arch>,
    t: Vec<Vec<Op>>,
    /// calls made by enumeration callbacks
    cb: Vec<Op>,
    w: RateSpec,
    /// damage: (where per mille, byte)
    dmg: Vec<(u16, u8)>,
    pol: u64,
}
fn gen13(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a: Vec<Arch> = (0..r.range(1, 2) as usize).map(|i| tiny(r, i)).collect();
    for x in &mut a {
        x.list = *r.pick(&[1u8, 1, 1, 0]);
    }
    let op = |r: &mut Rng| Op { k: *r.pick(&[0u8, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 13, 13, 14, 15, 16, 16, 16, 17]), h: if r.chance(1, 8) { r.range(10, 15) as u8 } else { r.below(3) as u8 }, x: r.u64() as u32, y: r.u64() as u32 };
    let long = r.chance(1, 150);
    let t = (0..r.range(1, 4)).map(|_| (0..if long { r.range(60, 200) } else { r.range(1, 10) }).map(|_| op(r)).collect()).collect();
    let cb = if r.chance(2, 3) { (0..r.range(1, 4)).map(|_| op(r)).collect() } else { vec![] };
    let w = match r.below(4) {
        0 => RateSpec { short: 50, eintr: 50, read_err: 50, write_err: 50, meta_err: 50, rare_err: 0 },
        1 => RateSpec::benign(r),
        _ => RateSpec::default(),
    };
    let dmg = if r.chance(1, 4) { (0..r.range(1, 4)).map(|_| (r.below(1000) as u16, r.u64() as u8)).collect() } else { vec![] };
    to_value(S13 { a, t, cb, w, dmg, pol: r.u64() >> 12 }).unwrap()
}
fn run13(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S13>(v.clone()) else { return };
    if s.a.is_empty() || s.a.iter().any(|a| a.has_duplicates()) {
        return;
    }
    let Some(w) = world(ctx, &s.a) else { return };
    for (i, (p, b)) in s.dmg.iter().enumerate() {
        let path = &w.arch[i % w.arch.len()].0;
        if let Some(mut d) = sim().fs.get(path) {
            let k = d.len() * *p as usize / 1000;
            d[k] ^= b | 1;
            sim().fs.put(path, &d);
        }
    }
    let w = Arc::new(w);
    let sl = Arc::new(Mutex::new(Slots::default()));
    simos::phase(run::plan(1));
    {
        let (w, sl) = (w.clone(), sl.clone());
        let st = ctx.single(move || {
            let sh = Arc::new(Shared { paths: w.arch.iter().map(|a| a.0.clone()).collect(), out: String::new() });
            for i in 0..w.arch.len() {
                if let Res::Handle(h) = perform(&sh, &Call::Open(i), 0, &[]) {
                    simos::without(|| {
                        let mut s = sl.lock().unwrap();
                        s.a.push(h);
                        s.seen.push(h);
                    });
                }
            }
        });
        if !ctx.must_finish("API calls", &st) {
            return;
        }
    }
    simos::phase(Plan { seed: ctx.seed(), rates: s.w.rates(), ..Default::default() });
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, ops) in s.t.iter().enumerate() {
        let (w, sl, ops, cb) = (w.clone(), sl.clone(), ops.clone(), s.cb.clone());
        bodies.push(Box::new(move || {
            for (i, o) in ops.iter().enumerate() {
                let (call, inner, sh) = simos::without(|| {
                    let sh = Arc::new(Shared { paths: w.arch.iter().map(|a| a.0.clone()).collect(), out: format!("/w/x/t{}/{}", t, i) });
                    let s = sl.lock().unwrap();
                    let mk = |o: &Op| if o.k == 17 { Call::Create(o.x as usize % 2, [1u32, 2, 4, 5, 3][o.y as usize % 5]) } else { call11(&w, &s, o) };
                    let inner: Vec<(Call, Option<Arc<Shared>>)> = cb.iter().map(|o| (mk(o), Some(sh.clone()))).collect();
                    (mk(o), inner, sh)
                });
                let r = perform(&sh, &call, 0, &inner);
                simos::without(|| {
                    let mut s = sl.lock().unwrap();
                    match (&call, &r) {
                        (Call::Open(_) | Call::Create(..), Res::Handle(h)) => {
                            s.seen.push(*h);
                            s.a.insert(0, *h);
                            s.a.truncate(3);
                        }
                        (Call::OpenF(..), Res::Handle(h)) => {
                            s.seen.push(*h);
                            s.f.insert(0, *h);
                            s.f.truncate(3);
                        }
                        (Call::VerifyA(..), Res::Done) => feat("archive verified"),
                        (Call::Enum(..), Res::Names(n)) if !n.is_empty() => feat(if inner.is_empty() { "enumerated" } else { "enumerated with calls from the callback" }),
                        _ => feat("call returned"),
                    }
                });
            }
        }));
    }
    let mut r = Rng::new(s.pol);
    let st = ctx.multi(policy(&mut r, 600), bodies);
    ctx.must_finish("API calls", &st);
}

// ---- C22: success means done -------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S22 {
    a: Arch,
    /// bit 0 crc32, bit 2 md5 in an (attributes) file; 0 none
    attr: u8,
    /// (file, damage)
    d: Vec<(u32, Dmg)>,
    /// open the archive before the damage happens
    before: bool,
    ops: Vec<Op>,
    w: RateSpec,
    cap: Option<u32>,
    /// what is at the path of a new archive
    old: u8,
    /// (file, attributes that were recorded wrong)
    #[serde(default)]
    wrong: Vec<(u32, u8)>,
    /// a strong signature that is none
    #[serde(default)]
    forged: bool,
    /// creations of one path at the same time: dispositions, 0 for another program's file
    #[serde(default)]
    race: Vec<u8>,
}
impl S22 {
    /// recorded wrong for this file
    fn wrong(&self, name: &str) -> u8 {
        let n = self.a.files.len();
        self.wrong.iter().filter(|w| self.a.files[w.0 as usize % n].name == name).fold(0, |x, w| x | w.1) & self.attr & 5
    }
}
fn gen22(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 5, locales: false, big: false });
    if a.files.is_empty() {
        a.files = tiny(r, 0).files;
    }
    a.list = *r.pick(&[1u8, 1, 1, 1, 0]);
    if r.chance(1, 15) {
        scale(r, &mut a);
    }
    for f in &mut a.files {
        f.size = f.size.min(400_000);
        f.path = false;
        if r.chance(1, 3) {
            f.comp = 0;
        }
    }
    let mut ops: Vec<Op> = (0..r.range(1, 14)).map(|_| Op { k: *r.pick(&[0u8, 0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 6, 7]), h: 0, x: r.u64() as u32, y: r.u64() as u32 }).collect();
    let mut w = match r.below(4) {
        0 => RateSpec::default(),
        1 => RateSpec::benign(r),
        2 => RateSpec { short: 30, eintr: 30, read_err: 80, write_err: 60, meta_err: 40, rare_err: 0 },
        _ => RateSpec { read_err: *r.pick(&[20u32, 150, 300]), ..Default::default() },
    };
    let mut n = *r.pick(&[0u64, 0, 1, 1, 2]);
    let mut attr = *r.pick(&[0u8, 0, 1, 4, 5]);
    if r.chance(1, 4) {
        // verification while the archive is hard to read
        a.crc = r.chance(1, 5);
        attr = *r.pick(&[1u8, 4, 5]);
        n = r.range(1, 3);
        ops = (0..r.range(2, 20)).map(|_| Op { k: *r.pick(&[2u8, 2, 2, 3, 7]), h: 0, x: r.u64() as u32, y: r.u64() as u32 }).collect();
        w = RateSpec { read_err: *r.pick(&[30u32, 100, 300]), ..Default::default() };
    }
    to_value(S22 {
        a,
        attr,
        d: (0..n).map(|_| (r.u64() as u32, dmg(r))).collect(),
        before: r.chance(1, 3),
        ops,
        w,
        cap: if r.chance(1, 8) { Some(r.below(40_000) as u32) } else { None },
        old: r.below(3) as u8,
        wrong: if attr != 0 && r.chance(1, 6) { vec![(r.u64() as u32, *r.pick(&[1u8, 4, 4, 5]))] } else { vec![] },
        forged: r.chance(1, 12),
        race: if r.chance(1, 8) { (0..r.range(2, 4)).map(|_| *r.pick(&[1u8, 1, 1, 4, 4, 0])).collect() } else { vec![] },
    })
    .unwrap()
}
fn crc32(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xedb88320 } else { c >> 1 };
        }
    }
    !c
}
fn attributes(n: usize, flags: u8, at: &BTreeMap<usize, (Vec<u8>, u8)>) -> Vec<u8> {
    use md5::{Digest, Md5};
    let mut v = 100u32.to_le_bytes().to_vec();
    v.extend_from_slice(&(flags as u32).to_le_bytes());
    if flags & 1 != 0 {
        for i in 0..n {
            v.extend_from_slice(&at.get(&i).map(|(d, w)| crc32(d) ^ ((*w as u32 & 1) << 9)).unwrap_or(0).to_le_bytes());
        }
    }
    if flags & 4 != 0 {
        for i in 0..n {
            match at.get(&i) {
                Some((d, w)) => {
                    let mut x: [u8; 16] = Md5::digest(d).into();
                    x[13] ^= w & 4;
                    v.extend_from_slice(&x)
                }
                None => v.extend_from_slice(&[0; 16]),
            }
        }
    }
    v
}
fn read_all(h: usize, want: usize) -> Option<Vec<u8>> {
    let mut out = vec![];
    loop {
        let mut b = vec![0u8; (want / 3).max(100)];
        let mut n = 0;
        if !unsafe { SFileReadFile(hd(h), b.as_mut_ptr() as *mut c_void, b.len() as u32, &mut n, std::ptr::null_mut()) } {
            return None;
        }
        if n == 0 || out.len() > want * 2 + 1000 {
            return Some(out);
        }
        out.extend_from_slice(&b[..n as usize]);
    }
}
/// Several callers, and perhaps another program, want the same new file: one gets it, and nobody's is replaced.
fn race22(ctx: &mut Ctx, race: &[u8]) {
    sim().fs.put_dirs("/w/d");
    let seed = ctx.seed();
    simos::phase(run::plan(seed));
    let won: Arc<Mutex<Vec<(u8, bool, u32)>>> = Default::default();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    const THEIRS: &[u8] = b"not an archive, but precious";
    for d in race.iter().copied() {
        let won = won.clone();
        bodies.push(Box::new(move || {
            let (ok, e) = if d == 0 {
                use std::io::Write;
                let r = std::fs::OpenOptions::new().write(true).create_new(true).open("/w/d/new.mpq").and_then(|mut f| f.write_all(THEIRS));
                (r.is_ok(), 0)
            } else {
                let p = c"/w/d/new.mpq";
                let mut h: HANDLE = std::ptr::null_mut();
                let ok = unsafe { SFileCreateArchive(p.as_ptr(), d as u32, 16, &mut h) };
                let e = err();
                if ok && !SFileCloseArchive(h) {
                    fail("create-handle", "the handle of a new archive is invalid".into());
                }
                (ok, e)
            };
            simos::without(|| won.lock().unwrap().push((d, ok, e)));
        }));
    }
    let mut r = Rng::new(seed);
    let st = ctx.multi(policy(&mut r, 200), bodies);
    if !ctx.must_finish("API calls", &st) {
        return;
    }
    let won = won.lock().unwrap().clone();
    let n = |d: u8| won.iter().filter(|w| w.0 == d && w.1).count();
    let any = |d: u8| won.iter().any(|w| w.0 == d);
    let at = sim().fs.get("/w/d/new.mpq");
    feat(&format!("race: {} new, {} theirs", n(1), n(0)));
    if n(1) + n(0) > 1 {
        return fail("race-two-new", format!("{} callers (and {} other programs) each created the same new file", n(1), n(0)));
    }
    if n(0) == 1 && at.as_deref() != Some(THEIRS) {
        return fail("race-replaced", "a creation that must keep an existing file replaced one that another program had just made".into());
    }
    if n(0) == 1 && n(4) > 0 {
        return fail("race-opened", "a file that is no archive was opened as one".into());
    }
    if n(1) + n(0) == 0 && !any(4) {
        return fail("race-nobody", "nobody could create the file although nothing was wrong".into());
    }
    if n(0) == 0 && won.iter().any(|w| w.0 == 4 && !w.1) {
        return fail("race-open-failed", "opening or creating the archive failed although nothing was wrong".into());
    }
    if won.iter().any(|w| w.0 != 0 && !w.1 && w.2 == 0) {
        return fail("create-no-error", "creation failed without an error".into());
    }
    if n(0) == 0 && !at.is_some_and(|d| d.starts_with(b"MPQ\x1a")) {
        fail("create-nothing", "creation succeeded but no archive is at the path".into());
    }
}
fn run22(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S22>(v.clone()) else { return };
    if !s.race.is_empty() {
        return race22(ctx, &s.race);
    }
    if s.a.has_duplicates() || s.a.files.is_empty() {
        return;
    }
    let path = "/w/d/x.mpq";
    sim().fs.put_dirs("/w/d");
    let mut contents: Vec<(String, Vec<u8>)> = s.a.files.iter().map(|f| (f.name.clone(), f.data())).collect();
    let attr = s.attr & 5;
    let mut locs = vec![];
    let mut full = vec![];
    for round in 0..2 {
        let mut data = vec![];
        if round == 1 {
            if attr == 0 {
                break;
            }
            // where every file ended up; the sizes stay the same
            let c = cell();
            let (c2, names) = (c.clone(), contents.iter().map(|(n, d)| (n.clone(), (d.clone(), s.wrong(n)))).collect::<Vec<_>>());
            let st = ctx.single(move || {
                let Some(Ok(ar)) = guard(|| mopaq::Archive::open("/w/d/x.mpq")) else { return };
                let n = ar.header().block_table_size as usize;
                let mut m = BTreeMap::new();
                for (x, d) in names {
                    if let Some(Ok(Some(i))) = guard(|| ar.find_file(&x)) {
                        m.insert(i.block_index, d);
                    }
                }
                set(&c2, (n, m));
            });
            if !ctx.must_finish("open", &st) {
                return;
            }
            let Some((n, m)) = take(&c) else { return };
            data = attributes(n, attr, &m);
        } else if attr != 0 {
            let n = s.a.files.len() + 1 + (s.a.list != 0) as usize;
            data = attributes(n, attr, &BTreeMap::new());
        }
        let a = s.a.clone();
        let ok = cell();
        let ok2 = ok.clone();
        simos::phase(run::plan(1));
        let st = ctx.single(move || {
            let mut b = a.builder("");
            if attr != 0 {
                b = b.add_file_data_with_options(data, "(attributes)", 0, false, 0);
            }
            if let Some(Ok(())) = guard(|| b.build("/w/d/x.mpq")) {
                set(&ok2, ())
            }
        });
        if !ctx.must_finish("build", &st) || take(&ok).is_none() {
            return;
        }
    }
    if s.a.list != 0 {
        let mut l: String = s.a.files.iter().map(|f| format!("{}\r\n", f.name)).collect();
        if attr != 0 {
            l += "(attributes)\r\n";
        }
        l += "(listfile)\r\n";
        contents.push(("(listfile)".into(), l.into_bytes()));
    }
    {
        let c = cell();
        let (c2, a) = (c.clone(), s.a.clone());
        let st = ctx.single(move || {
            let Some(Ok(ar)) = guard(|| mopaq::Archive::open("/w/d/x.mpq")) else { return };
            let f = simos::without(|| sim().fs.get("/w/d/x.mpq").unwrap_or_default());
            if let Some(mut l) = super::damage::locate(&a, &ar, &f) {
                // nothing of the attributes
                if let Some(Ok(Some(i))) = guard(|| ar.find_file("(attributes)")) {
                    for x in &mut l {
                        if x.pos < i.file_pos as usize {
                            x.hi = x.hi.min(i.file_pos as usize);
                        }
                    }
                }
                set(&c2, (l, f));
            }
        });
        if !ctx.must_finish("open", &st) {
            return;
        }
        if let Some((l, f)) = take(&c) {
            locs = l;
            full = f;
        }
    }
    if locs.is_empty() {
        return;
    }
    let seed = ctx.seed();
    let st = ctx.single(move || thread22(&s, path, contents, locs, full, seed));
    ctx.must_finish("API calls", &st);
}
fn thread22(s: &S22, path: &str, contents: Vec<(String, Vec<u8>)>, locs: Vec<super::damage::Loc>, full: Vec<u8>, seed: u64) {
    let attr = s.attr & 5;
    let old = match s.old {
        0 => None,
        1 => Some(b"not an archive, but precious".to_vec()),
        _ => Some(full.clone()),
    };
    simos::without(|| {
        if let Some(o) = &old {
            sim().fs.put("/w/d/new.mpq", o)
        }
    });
    simos::phase(run::plan(1));
    let cp = cs(path);
    let mut h: HANDLE = std::ptr::null_mut();
    if s.before && !unsafe { SFileOpenArchive(cp.as_ptr(), 0, 0, &mut h) } {
        return fail("open-failed", format!("an intact archive could not be opened: error {}", err()));
    }
    let mut disk = full.clone();
    let mut hit = vec![false; locs.len()];
    if s.forged {
        disk.extend_from_slice(b"NGIS");
        disk.extend_from_slice(&content(256, 1, seed));
        *sim().counts.entry("forged_signature".into()).or_insert(0) += 1;
    }
    for (f, g) in &s.d {
        let i = *f as usize % locs.len();
        if locs[i].size == 0 && !s.a.crc {
            continue; // nothing of it is stored
        }
        let (lo, hi) = (locs[i].lo, locs[i].hi);
        hit[i] |= damage(&mut disk, lo, hi, g);
    }
    let list_hit = locs.iter().zip(&hit).any(|(l, h)| *h && l.name == "(listfile)");
    simos::without(|| sim().fs.put(path, &disk));
    // what remains of every file: decided by the library's own read, which C06 and C07 check
    let mut intact = vec![true; locs.len()];
    if hit.iter().any(|x| *x) {
        let Some(Ok(mut ar)) = guard(|| mopaq::Archive::open(path)) else { return };
        for (i, l) in locs.iter().enumerate() {
            {
                let want = &contents.iter().find(|c| c.0 == l.name).unwrap().1;
                let got = guard(|| ar.read_file(&l.name));
                intact[i] = matches!(&got, Some(Ok(d)) if d == want);
                if let Some(Ok(d)) = &got {
                    if hit[i] && !intact[i] && s.a.crc && super::damage::collision(l, s.a.sector() as usize, &disk, d) {
                        feat("checksum collision");
                        return;
                    }
                }
                if hit[i] {
                    feat(if intact[i] { "harmless damage" } else { "damaged contents" });
                }
            }
        }
    }
    if !s.before && !unsafe { SFileOpenArchive(cp.as_ptr(), 0, 0, &mut h) } {
        return fail("open-failed", format!("an archive with intact tables could not be opened: error {}", err()));
    }
    let mut created = old.clone();
    for calm in [false, true] {
        if calm {
            simos::phase(run::plan(1));
        } else {
            let cap = s.cap.map(|c| simos::without(|| sim().fs.used()) + c as u64);
            simos::phase(Plan { seed, rates: s.w.rates(), capacity: cap, ..Default::default() });
        }
        let faulty = !calm && (s.w.faulty() || s.cap.is_some());
        for (n, o) in s.ops.iter().enumerate() {
            if failed() {
                return;
            }
            let i = o.x as usize % locs.len();
            let l = &locs[i];
            let want = &contents.iter().find(|c| c.0 == l.name).unwrap().1;
            let nm = cs(&l.name);
            let checked = s.a.crc;
            let bad = |what: &str, ok: bool, right: bool| {
                if ok && !right {
                    if !intact[i] && !checked {
                        feat("unchecked damage");
                    } else {
                        fail(&format!("{}-wrong", what), format!("{} of {} reported success with other contents{}", what, describe(&s.a, &l.name), if intact[i] { "" } else { " (damaged, with checksums)" }));
                    }
                }
                if !ok {
                    if err() == 0 {
                        fail(&format!("{}-no-error", what), format!("{} failed without an error", what));
                    }
                    if !faulty && intact[i] {
                        fail(&format!("{}-failed", what), format!("{} of {} failed with error {} although nothing is wrong with it", what, describe(&s.a, &l.name), err()));
                    }
                }
                feat(&format!("{} {}", what, if ok { "succeeded" } else { "refused" }));
            };
            match o.k {
                0 => {
                    let mut f: HANDLE = std::ptr::null_mut();
                    let ok = unsafe { SFileOpenFileEx(h, nm.as_ptr(), 0, &mut f) };
                    if !ok {
                        bad("open", false, false);
                        continue;
                    }
                    let d = read_all(f as usize, want.len());
                    let z = unsafe { SFileGetFileSize(f, std::ptr::null_mut()) };
                    bad("open", true, d.as_ref() == Some(want) && z as usize == want.len());
                    SFileCloseFile(f);
                }
                1 => {
                    let out = match o.y % 4 {
                        0 => format!("/w/d/out{}", n),
                        1 => format!("/w/d/new/dirs/{}/out", n),
                        2 => "/w/d/again".to_string(),
                        _ => {
                            simos::without(|| sim().fs.put("/w/d/longer", &vec![7; 30_000]));
                            "/w/d/longer".to_string()
                        }
                    };
                    let oc = cs(&out);
                    let ok = unsafe { SFileExtractFile(h, nm.as_ptr(), oc.as_ptr(), 0) };
                    let d = simos::without(|| sim().fs.get(&out));
                    bad("extract", ok, d.as_ref() == Some(want));
                }
                // is it as it was stored?
                2 => {
                    let fl = [0u32, 1, 2, 4, 6, 7, 0xff][o.y as usize % 7];
                    let all = if fl == 0 { 0xff } else { fl };
                    let ok = unsafe { SFileVerifyFile(h, nm.as_ptr(), fl) };
                    let crc_covers = (all & 1 != 0 && s.a.crc) || (l.name != "(listfile)" && all as u8 & attr & 1 != 0 && all & 2 != 0) || false;
                    let attr_covers = l.name != "(listfile)" && ((all & 2 != 0 && attr & 1 != 0) || (all & 4 != 0 && attr & 4 != 0));
                    let covered = crc_covers || attr_covers;
                    let w = s.wrong(&l.name);
                    let wrong = (all & 2 != 0 && w & 1 != 0) || (all & 4 != 0 && w & 4 != 0);
                    if ok && wrong {
                        return fail("verify-wrong", format!("verifying {} with flags {:#x} reported success although its recorded attributes do not match (recorded {:#x}, wrong {:#x})", describe(&s.a, &l.name), fl, attr, w));
                    }
                    if ok && !intact[i] && covered {
                        return fail("verify-wrong", format!("verifying {} with flags {:#x} reported success although its contents are damaged (sector checksums {}, attributes {:#x})", describe(&s.a, &l.name), fl, s.a.crc, attr));
                    }
                    let skip = l.name == "(listfile)" && attr != 0;
                    if !ok && err() == 0 {
                        return fail("verify-no-error", "verification failed without an error".into());
                    }
                    if !ok && !faulty && intact[i] && !skip && !wrong {
                        return fail("verify-failed", format!("verifying {} with flags {:#x} failed with error {} although nothing is wrong with it (sector checksums {}, attributes {:#x})", describe(&s.a, &l.name), fl, err(), s.a.crc, attr));
                    }
                    feat(&format!("verify {} covered={}", if ok { "succeeded" } else { "refused" }, covered));
                }
                3 => {
                    let fl = [0x20u32, 0x30, 0xff, 0x20, 0, 0x10][o.y as usize % 6];
                    let ok = unsafe { SFileVerifyArchive(h, fl) };
                    let files = fl & 0x20 != 0;
                    let all = if fl == 0 { 0x10 } else { fl };
                    let lie = s.forged && all & 0x10 != 0;
                    if ok && lie {
                        return fail("verify-archive-wrong", format!("verifying the archive with flags {:#x} reported success although its signature is not valid", fl));
                    }
                    let list_fine = locs.iter().zip(&intact).all(|(l, x)| l.name != "(listfile)" || *x);
                    let off = s.a.files.iter().find(|f| s.wrong(&f.name) != 0);
                    if let (Some(f), true, true) = (off, ok && files && s.a.list != 0, list_fine || s.a.crc) {
                        return fail("verify-archive-wrong", format!("verifying the archive with flags {:#x} reported success although the recorded attributes of {} do not match", fl, describe(&s.a, &f.name)));
                    }
                    let worst = locs.iter().enumerate().find(|(k, l)| !intact[*k] && l.name != "(listfile)" && (s.a.crc || attr != 0));
                    if ok && files && s.a.list != 0 {
                        let list_ok = locs.iter().enumerate().all(|(k, l)| l.name != "(listfile)" || intact[k]);
                        if let (Some((_, l)), true) = (worst, list_ok || s.a.crc) {
                            return fail("verify-archive-wrong", format!("verifying the archive with flags {:#x} reported success although {} is damaged (sector checksums {}, attributes {:#x})", fl, describe(&s.a, &l.name), s.a.crc, attr));
                        }
                        if list_hit && s.a.crc && locs.iter().enumerate().any(|(k, l)| l.name == "(listfile)" && !intact[k]) {
                            return fail("verify-archive-wrong", format!("verifying the archive with flags {:#x} reported success although its list of files is damaged", fl));
                        }
                    }
                    if !ok && err() == 0 {
                        return fail("verify-archive-no-error", "verification failed without an error".into());
                    }
                    if !ok && !faulty && !lie && off.is_none() && intact.iter().all(|x| *x) {
                        return fail("verify-archive-failed", format!("verifying the archive with flags {:#x} failed with error {} although nothing is wrong with it", fl, err()));
                    }
                    feat(&format!("verify archive {} files={}", if ok { "succeeded" } else { "refused" }, files));
                }
                4 => {
                    if s.a.list == 0 {
                        continue;
                    }
                    let limit = if o.y % 4 == 0 { 1 + o.x as usize % 4 } else { usize::MAX };
                    let mask = match o.x % 4 {
                        0 => Some(cs("*")),
                        1 => Some(cs("*.txt")),
                        _ => None,
                    };
                    let mut e = EnumCtx { names: vec![], limit, inner: vec![], depth: 0 };
                    let ok = unsafe { SFileEnumFiles(h, mask.as_ref().map(|m| m.as_ptr()).unwrap_or(std::ptr::null()), std::ptr::null(), Some(on_file), &mut e as *mut EnumCtx as *mut c_void) };
                    let lk = locs.iter().position(|l| l.name == "(listfile)");
                    let l_ok = lk.map(|k| intact[k]).unwrap_or(true);
                    if !ok {
                        if err() == 0 {
                            return fail("enum-no-error", "enumeration failed without an error".into());
                        }
                        if !faulty && l_ok {
                            return fail("enum-failed", format!("enumeration failed with error {}", err()));
                        }
                    } else if l_ok || s.a.crc {
                        let mut all: Vec<String> = contents.iter().map(|c| c.0.clone()).collect();
                        if attr != 0 {
                            all.push("(attributes)".into());
                        }
                        let must: Vec<&String> = all.iter().filter(|x| o.x % 4 != 1 || x.ends_with(".txt")).collect();
                        let stopped = e.names.len() == limit;
                        let mut seen = HashSet::new();
                        let alien = e.names.iter().find(|x| !all.contains(x) || !seen.insert(x.to_string()));
                        let lacking = must.iter().find(|x| !e.names.contains(x));
                        if e.names.len() > limit {
                            return fail("enum-not-stopped", "enumeration went on after the callback asked it to stop".into());
                        }
                        if let Some(x) = alien {
                            return fail("enum-wrong", format!("enumeration reported {:?}, which is not in the archive or came twice", x));
                        }
                        if let (Some(x), false) = (lacking, stopped) {
                            return fail("enum-incomplete", format!("enumeration reported success but left out {:?} ({} of {} names)", x, e.names.len(), must.len()));
                        }
                    }
                    feat(&format!("enumeration {}", if ok { "succeeded" } else { "refused" }));
                }
                5 => {
                    let known = o.y % 2 == 0;
                    let m = if known { nm.clone() } else { cs("nowhere\\to be found") };
                    let ok = unsafe { SFileHasFile(h, m.as_ptr()) };
                    if ok != known {
                        return fail("has-file", format!("a {} file: {}", if known { "stored" } else { "missing" }, ok));
                    }
                }
                7 => {
                    // close and open again
                    if !SFileCloseArchive(h) {
                        return fail("close-failed", format!("the archive could not be closed: error {}", err()));
                    }
                    let mut ok = false;
                    for _ in 0..20 {
                        ok = unsafe { SFileOpenArchive(cp.as_ptr(), 0, 0, &mut h) };
                        if ok || !faulty {
                            break;
                        }
                    }
                    if !ok {
                        if !faulty {
                            return fail("open-failed", format!("an archive with intact tables could not be opened: error {}", err()));
                        }
                        // without faults
                        let plan = sim().plan.clone();
                        sim().plan = run::plan(1);
                        ok = unsafe { SFileOpenArchive(cp.as_ptr(), 0, 0, &mut h) };
                        sim().plan = plan;
                        if !ok {
                            return;
                        }
                    }
                }
                _ => {
                    let disp = [1u32, 2, 4, 5, 3, 9][o.y as usize % 6];
                    let p = cs("/w/d/new.mpq");
                    let before = simos::without(|| sim().fs.get("/w/d/new.mpq"));
                    let mut nh: HANDLE = std::ptr::null_mut();
                    let ok = unsafe { SFileCreateArchive(p.as_ptr(), disp, [4u32, 16, 1024, 3, 0][o.x as usize % 5], &mut nh) };
                    let after = simos::without(|| sim().fs.get("/w/d/new.mpq"));
                    let valid = o.x % 5 < 3;
                    if !ok && err() == 0 {
                        return fail("create-no-error", "creation failed without an error".into());
                    }
                    let refuse = !valid || disp == 3 || disp == 9 || (disp == 1 && before.is_some()) || (disp == 5 && before.is_none());
                    if refuse {
                        if ok && !(faulty && valid && disp < 9 && disp != 3) {
                            return fail("create-accepted", format!("creating with disposition {} at {} path succeeded", disp, if before.is_some() { "an existing" } else { "a free" }));
                        }
                        if !ok && after != before {
                            return fail("create-damaged", format!("refused creation (disposition {}) changed what was at the path", disp));
                        }
                        if ok && disp == 1 && before.is_some() {
                            // the existence check itself failed
                            return fail("create-overwrote", format!("creation of a new file overwrote the existing one (disposition {})", disp));
                        }
                        feat("creation refused");
                    } else if ok {
                        feat(&format!("created disposition={}", disp));
                        let opened = disp == 4 && before.is_some();
                        if opened && after != before {
                            return fail("create-overwrote", "opening an existing archive changed it".into());
                        }
                        if !opened {
                            let Some(ref d) = after else { return fail("create-nothing", "creation succeeded but nothing is at the path".into()) };
                            if Some(d) == old.as_ref() && before == old && disp == 2 {
                                return fail("create-nothing", "creation succeeded but the old file is still there".into());
                            }
                            let mut e = EnumCtx { names: vec![], limit: usize::MAX, inner: vec![], depth: 0 };
                            if unsafe { SFileEnumFiles(nh, std::ptr::null(), std::ptr::null(), Some(on_file), &mut e as *mut EnumCtx as *mut c_void) } && e.names != ["(listfile)"] {
                                return fail("create-not-empty", format!("a new archive contains {:?}", e.names));
                            }
                        }
                        if !SFileCloseArchive(nh) {
                            return fail("create-handle", "the handle of a new archive is invalid".into());
                        }
                    } else {
                        if !faulty && !(disp == 4 && before.is_some() && Some(&full) != before.as_ref()) {
                            return fail("create-failed", format!("creation (disposition {}) failed with error {} without a reason", disp, err()));
                        }
                        // a failed creation leaves the old file or the complete new one
                        if after != before && after.is_none() {
                            return fail("create-damaged", format!("failed creation (disposition {}) removed what was at the path", disp));
                        }
                        if after != before && created.as_ref() != after.as_ref() {
                            let d = after.clone().unwrap_or_default();
                            simos::without(|| sim().fs.put("/w/d/probe.mpq", &d));
                            if !simos::without(|| d.starts_with(b"MPQ\x1a")) {
                                return fail("create-damaged", format!("failed creation (disposition {}) damaged what was at the path", disp));
                            }
                        }
                        feat("creation failed");
                    }
                    created = after;
                }
            }
        }
    }
    if !SFileCloseArchive(h) {
        fail("close-failed", format!("the archive could not be closed: error {}", err()));
    }
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C11", gen: gen11, run: run11, quick: 50000, rule: "two to four threads make seeded calls on shared handles (live, stale, null, guessed, of the wrong kind) under a random or PCT schedule at lock, atomic and system-call granularity; the history is searched for a sequential explanation; non-trivial: a handle was closed, a call refused or the history explained", real: REAL_FFI, stub: STUB_FFI, assume: ASSUME },
        Prop { id: "C12", gen: gen12, run: run12, quick: 50000, rule: "one to three threads make seeded call sequences with boundary and wild arguments and guarded buffers; every result is compared with a byte array and cursor; non-trivial: at least one call with a checked result", real: REAL_FFI, stub: STUB_FFI, assume: ASSUME },
        Prop { id: "C13", gen: gen13, run: run13, quick: 50000, rule: "one to four threads make any calls, enumeration callbacks call back into the API, with I/O faults and damage; every thread must finish; non-trivial: at least one call returned", real: REAL_FFI, stub: STUB_FFI, assume: ASSUME },
        Prop { id: "C22", gen: gen22, run: run22, quick: 50000, rule: "open, read, extract, verify, enumerate and create through the C API on an archive whose file data may be damaged, first under read, write, meta-data and disk-full faults, then without; non-trivial: at least one call with a checked result", real: REAL_FFI, stub: STUB_FFI, assume: ASSUME },
    ]
}
