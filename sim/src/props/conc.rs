//! C10, C18: concurrent builds and readers, reproducible builds.
use super::core::*;
use super::*;
use crate::run::{self, *};
use crate::work::*;
use mopaq::Archive;
use serde::{Deserialize, Serialize};
use serde_json::to_value;
use simos::prng::mix;
use simos::sched::Policy;
use simos::{sim, Plan};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub fn policy(r: &mut Rng, horizon: u64) -> Policy {
    match r.below(4) {
        0 => Policy::Random(500),
        1 => Policy::Random(100),
        2 => Policy::Random(30),
        _ => Policy::Pct { d: r.range(1, 4) as u32, horizon },
    }
}
// ---- C10 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S10 {
    init: bool,
    vers: Vec<Arch>,
    /// per builder: versions built in turn (indices into vers)
    builders: Vec<Vec<u8>>,
    /// per reader: number of opens, seed for its choices
    readers: Vec<(u8, u32)>,
    w: RateSpec,
    pol: u64,
}
fn small(r: &mut Rng, id: usize) -> Arch {
    let mut a = arch(r, &ArchOpts { max_files: 4, locales: false, big: false });
    a.files.truncate(4);
    for f in &mut a.files {
        f.size = f.size.min(6000);
        f.path = f.path && f.enc < 2;
    }
    if a.list == 2 {
        a.list = 1;
    }
    // tells the versions apart
    a.files.push(FileSpec { name: "version.txt".into(), size: 100 + id as u64, kind: 2, cseed: id as u64, comp: 0, enc: 0, locale: 0, path: false });
    // the same name with other contents in every version
    a.files.push(FileSpec { name: "common.dat".into(), size: r.range(1, 5000), kind: 1, cseed: r.u64() >> 12, comp: *r.pick(&[0u8, 2]), enc: r.below(3) as u8, locale: 0, path: false });
    a
}
fn gen10(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let nb = r.range(1, 3) as usize;
    let mut vers = vec![];
    let init = r.chance(3, 4);
    if init {
        vers.push(small(r, 0));
    }
    let mut builders = vec![];
    for _ in 0..nb {
        let mut l = vec![];
        for _ in 0..r.range(1, 3) {
            let id = vers.len();
            vers.push(small(r, id));
            l.push(id as u8);
        }
        builders.push(l);
    }
    let readers = (0..r.range(if nb > 1 { 0 } else { 1 }, 3)).map(|_| (r.range(1, 4) as u8, r.u64() as u32)).collect();
    let w = match r.below(4) {
        0 => RateSpec { write_err: 20, meta_err: 20, read_err: 5, ..Default::default() },
        1 => RateSpec { write_err: 5, meta_err: 100, ..Default::default() },
        2 => RateSpec::benign(r),
        _ => RateSpec::default(),
    };
    to_value(S10 { init, vers, builders, readers, w, pol: r.u64() >> 12 }).unwrap()
}
#[derive(Clone, Debug)]
struct Ev {
    inv: u64,
    ret: u64,
    /// version written, or seen
    v: Option<usize>,
    write: bool,
}
/// is there an order of the events, consistent with real time, in which every open sees the latest build?
fn linear(h: &[Ev], done: u64, cur: Option<usize>, memo: &mut std::collections::HashSet<(u64, Option<usize>)>) -> bool {
    if done.count_ones() as usize == h.len() {
        return true;
    }
    if !memo.insert((done, cur)) {
        return false;
    }
    let bound = h.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, e)| e.ret).min().unwrap();
    for (i, e) in h.iter().enumerate() {
        if done >> i & 1 == 1 || e.inv > bound {
            continue;
        }
        if e.write {
            if linear(h, done | 1 << i, e.v, memo) {
                return true;
            }
        } else if e.v == cur && linear(h, done | 1 << i, cur, memo) {
            return true;
        }
    }
    false
}
fn run10(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S10>(v.clone()) else { return };
    if s.vers.iter().any(|a| a.has_duplicates()) || s.builders.iter().flatten().any(|i| *i as usize >= s.vers.len()) || (s.init && s.vers.is_empty()) {
        return;
    }
    let dest = "/w/d/out.mpq";
    sim().fs.put_dirs("/w/d");
    let mut refs = vec![];
    for (i, a) in s.vers.iter().enumerate() {
        a.put_sources(&i.to_string());
        let (st, r) = build(ctx, a, &i.to_string(), &format!("/w/ref{}", i), run::plan(1));
        if !ctx.must_finish("build", &st) || !matches!(r, Some(Ok(()))) {
            return;
        }
        refs.push(sim().fs.get(&format!("/w/ref{}", i)).unwrap_or_default());
    }
    if s.init {
        sim().fs.put(dest, &refs[0]);
    }
    let faulty = s.w.faulty();
    let before: Vec<String> = sim().fs.tree().into_keys().collect();
    let clock = Arc::new(AtomicU64::new(1));
    let hist: Arc<Mutex<Vec<Ev>>> = Arc::new(Mutex::new(vec![]));
    let vers = Arc::new(s.vers.clone());
    let models: Arc<Vec<_>> = Arc::new(s.vers.iter().map(|a| a.model()).collect());
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (k, b) in s.builders.iter().enumerate() {
        let (b, vers, clock, hist) = (b.clone(), vers.clone(), clock.clone(), hist.clone());
        let place = super::core::spelled("/w/d/out.mpq", ctx.seed() ^ k as u64);
        bodies.push(Box::new(move || {
            for id in b {
                let id = id as usize;
                let bu = vers[id].builder(&id.to_string());
                let inv = clock.fetch_add(1, Ordering::Relaxed);
                let Some(r) = guard(|| bu.build(&place)) else { return };
                let ret = clock.fetch_add(1, Ordering::Relaxed);
                match r {
                    Ok(()) => {
                        feat("concurrent build succeeded");
                        simos::without(|| hist.lock().unwrap().push(Ev { inv, ret, v: Some(id), write: true }));
                    }
                    Err(e) => {
                        feat("concurrent build refused");
                        if !faulty {
                            fail(&format!("build-error {}", kindof(&e)), format!("a build failed although only other builds and readers were running: {}", e));
                        }
                    }
                }
            }
        }));
    }
    for (n, seed) in &s.readers {
        let (n, seed, models, clock, hist, init) = (*n, *seed, models.clone(), clock.clone(), hist.clone(), s.init);
        let vers = vers.clone();
        bodies.push(Box::new(move || {
            let mut r = Rng::new(seed as u64);
            for _ in 0..n {
                let inv = clock.fetch_add(1, Ordering::Relaxed);
                let Some(o) = guard(|| Archive::open("/w/d/out.mpq")) else { return };
                let ret = clock.fetch_add(1, Ordering::Relaxed);
                let mut ar = match o {
                    Ok(a) => a,
                    Err(e) => {
                        let missing = matches!(&e, mopaq::Error::Io(x) if x.kind() == std::io::ErrorKind::NotFound);
                        if missing && !init {
                            feat("opened before the first build");
                            simos::without(|| hist.lock().unwrap().push(Ev { inv, ret, v: None, write: false }));
                        } else if !faulty {
                            fail(&format!("open-error {}", kindof(&e)), format!("opening failed while builds replace the archive: {}", e));
                        }
                        continue;
                    }
                };
                // which one is it?
                let mut tag = None;
                for _ in 0..3 {
                    match guard(|| ar.read_file("version.txt")) {
                        Some(Ok(d)) => {
                            tag = simos::without(|| models.iter().position(|m| m.get(&norm("version.txt")).map(|v| v[0].1 == d).unwrap_or(false)));
                            if tag.is_none() {
                                return fail("unknown-version", "the opened archive's version file is no version's".into());
                            }
                            break;
                        }
                        Some(Err(e)) => {
                            if !faulty {
                                return fail(&format!("read-error {}", kindof(&e)), format!("reading while builds replace the archive: {}", e));
                            }
                        }
                        None => return,
                    }
                }
                let Some(id) = tag else { continue };
                feat("opened during builds");
                simos::without(|| hist.lock().unwrap().push(Ev { inv, ret, v: Some(id), write: false }));
                // the handle keeps showing that version
                let files: Vec<String> = vers[id].files.iter().map(|f| f.name.clone()).collect();
                for _ in 0..r.range(2, 8) {
                    let n = &files[r.below(files.len() as u64) as usize];
                    match guard(|| ar.read_file(n)) {
                        Some(Ok(d)) => {
                            if simos::without(|| models[id].get(&norm(n)).map(|v| v.iter().all(|x| x.1 != d)).unwrap_or(true)) {
                                return fail("mixed-versions", format!("a reader of version {} got other bytes for {} while the path was replaced", id, describe(&vers[id], n)));
                            }
                        }
                        Some(Err(e)) => {
                            if !faulty {
                                return fail(&format!("read-error {}", kindof(&e)), format!("a reader of version {} could not read {} while the path was replaced: {}", id, n, e));
                            }
                        }
                        None => return,
                    }
                }
                // and nothing of the others
                for (k, m) in vers.iter().enumerate() {
                    for f in &m.files {
                        if k != id && simos::without(|| !models[id].contains_key(&norm(&f.name))) {
                            if let Some(Ok(Some(_))) = guard(|| ar.find_file(&f.name)) {
                                return fail("mixed-versions", format!("a reader of version {} finds {} of version {}", id, f.name, k));
                            }
                        }
                    }
                }
                if vers[id].list != 0 {
                    if let Some(Ok(l)) = guard(|| ar.list()) {
                        let mut got: Vec<String> = l.iter().map(|e| e.name.clone()).collect();
                        got.sort();
                        let mut want = files.clone();
                        want.push("(listfile)".into());
                        want.sort();
                        if got != want {
                            return fail("mixed-versions", format!("listing of version {} shows {} entries instead of {}", id, got.len(), want.len()));
                        }
                    }
                }
            }
        }));
    }
    simos::phase(Plan { seed: ctx.seed(), rates: s.w.rates(), scope: None, ..Default::default() });
    let mut r = Rng::new(s.pol);
    let st = ctx.multi(policy(&mut r, 3000), bodies);
    if !ctx.must_finish("concurrent run", &st) || failed() {
        return;
    }
    let mut h = hist.lock().unwrap().clone();
    let fin = sim().fs.get(dest);
    let last = match &fin {
        None => None,
        Some(d) => match refs.iter().position(|x| x == d) {
            Some(i) => Some(i),
            None => return fail("final-mixed", format!("the path finally holds {} bytes that are not exactly one of the builds", d.len())),
        },
    };
    let t = clock.fetch_add(10, Ordering::Relaxed);
    h.push(Ev { inv: t, ret: t + 1, v: last, write: false });
    if h.len() <= 40 && !linear(&h, 0, if s.init { Some(0) } else { None }, &mut Default::default()) {
        let mut l: Vec<String> = h.iter().map(|e| format!("{}..{} {} {:?}", e.inv, e.ret, if e.write { "build" } else { "open" }, e.v)).collect();
        l.sort();
        fail("not-linearizable", format!("no order of the builds explains what was opened: {}", l.join(", ")));
    }
    let unlink_fault = sim().injected.iter().any(|i| i.at.starts_with("Unlink"));
    let stray: Vec<String> = sim().fs.tree().into_keys().filter(|p| !before.contains(p) && p != dest).collect();
    if !stray.is_empty() && !unlink_fault {
        fail("stray-files", format!("left behind: {:?}", stray));
    }
    for (i, x) in refs.iter().enumerate() {
        if sim().fs.get(&format!("/w/ref{}", i)).as_ref() != Some(x) {
            fail("other-files-touched", "another archive was changed".into());
        }
    }
}
// ---- C18 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S18 {
    a: Arch,
    other: Arch,
    /// per repetition: (chunking, clock jump, destination, flip source, concurrent)
    reps: Vec<(RateSpec, u64, u8, bool, bool)>,
    pol: u64,
}
fn gen18(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 10, locales: true, big: true });
    for f in &mut a.files {
        f.size = f.size.min(50_000);
    }
    if r.chance(1, 5) {
        let n = r.range(20, 60) as usize;
        let ns = names(r, n);
        a.files = ns.into_iter().map(|name| FileSpec { name, size: r.range(0, 100), kind: 2, cseed: r.u64() >> 12, comp: 255, enc: r.below(4) as u8, locale: 0, path: false }).collect();
    }
    scale(r, &mut a);
    let other = small(r, 3);
    let reps = (0..r.range(1, 3)).map(|_| (RateSpec::benign(r), r.u64() >> r.below(40) >> 4, r.below(4) as u8, r.chance(1, 2), r.chance(1, 2))).collect();
    to_value(S18 { a, other, reps, pol: r.u64() >> 12 }).unwrap()
}
fn run18(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S18>(v.clone()) else { return };
    if s.a.has_duplicates() || s.other.has_duplicates() {
        return;
    }
    s.a.put_sources("");
    s.other.put_sources("o");
    let (st, r) = build(ctx, &s.a, "", "/w/ref.mpq", run::plan(1));
    if !ctx.must_finish("build", &st) || !matches!(r, Some(Ok(()))) {
        return;
    }
    let want = sim().fs.get("/w/ref.mpq").unwrap_or_default();
    let mut rr = Rng::new(s.pol);
    for (k, (w, jump, dst, flip, conc)) in s.reps.iter().enumerate() {
        let sm = sim();
        sm.real_ns = sm.real_ns.wrapping_add(*jump) % (1 << 62);
        sm.clock_ns += jump >> 8;
        sm.rand = Rng::new(mix(s.pol, k as u64));
        let tag = format!("r{}", k);
        let mut a = s.a.clone();
        if *flip {
            for f in &mut a.files {
                if f.enc < 2 {
                    f.path = !f.path;
                }
            }
        }
        a.put_sources(&tag);
        let dir = format!("/w/dir{}", k);
        sm.fs.put_dirs(&dir);
        let dest = match dst {
            0 => format!("{}/out.mpq", dir),
            1 => {
                let d = format!("{}/a-much-longer-name-for-the-archive-file.w3x", dir);
                sm.fs.put(&d, &vec![0x55; 300_000]);
                d
            }
            2 => {
                let d = format!("{}/x", dir);
                sm.fs.put(&d, &want[..want.len() / 2]);
                d
            }
            _ => format!("{}/y.mpq", dir),
        };
        simos::phase(Plan { seed: mix(ctx.seed(), k as u64), rates: w.rates(), ..Default::default() });
        let res: Arc<Mutex<Vec<bool>>> = Arc::new(Mutex::new(vec![]));
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        let mut dests = vec![dest.clone()];
        if *conc {
            dests.push(format!("{}/second.mpq", dir));
        }
        for d in &dests {
            let (a, tag, d, res) = (a.clone(), tag.clone(), d.clone(), res.clone());
            bodies.push(Box::new(move || {
                let b = a.builder(&tag);
                match guard(|| b.build(&d)) {
                    Some(Ok(())) => simos::without(|| res.lock().unwrap().push(true)),
                    Some(Err(e)) => fail(&format!("build-error {}", kindof(&e)), format!("repeating a build failed: {}", e)),
                    None => {}
                }
            }));
        }
        if *conc {
            let (o, dir) = (s.other.clone(), dir.clone());
            bodies.push(Box::new(move || {
                for i in 0..2 {
                    let b = o.builder("o");
                    guard(|| b.build(format!("{}/other{}.mpq", dir, i)));
                }
            }));
        }
        let st = ctx.multi(policy(&mut rr, 3000), bodies);
        if !ctx.must_finish("build", &st) {
            return;
        }
        feat(&format!("repeated dst={} flip={} concurrent={} v{}", dst, flip, conc, s.a.ver));
        for d in &dests {
            if let Some(got) = sim().fs.get(d) {
                if got != want && res.lock().unwrap().len() == dests.len() {
                    fail("bytes-differ", format!("building the same files again (destination kind {}, sources {}, {}) gave other bytes: {}", dst, if *flip { "moved between memory and files" } else { "as before" }, if *conc { "concurrently" } else { "alone" }, diff(&want, &got)));
                }
            }
        }
    }
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C10", gen: gen10, run: run10, quick: 12000, rule: "up to three builders and three readers share one path under a random or PCT schedule, with and without I/O errors; the history of builds and opens is checked for linearizability; non-trivial: a concurrent build or open took effect", real: REAL_LIB, stub: &["operating system: file system, clock, random source, thread scheduling (simos)"], assume: ASSUME },
        Prop { id: "C18", gen: gen18, run: run18, quick: 13000, rule: "the same archive is built again with other clocks, random sources, destinations, chunkings and next to other builds; non-trivial: at least one repetition", real: REAL_LIB, stub: &["operating system: file system, clock, random source, thread scheduling (simos)"], assume: ASSUME },
    ]
}
