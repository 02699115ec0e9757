//! C01-C06: round trip, names, listing, crash atomicity, honest builds, reads under faults.
use super::*;
use crate::run::*;
use crate::work::*;
use mopaq::io::{BufferedMpqReader, MpqRead};
use mopaq::{Archive, Error, OpenOptions};
use serde::{Deserialize, Serialize};
use serde_json::{json, to_value};
use simos::prng::mix;
use simos::sched::Stop;
use simos::{sim, Fault, Plan};
use std::sync::{Arc, Mutex};

pub type Cell<T> = Arc<Mutex<Option<T>>>;
pub fn cell<T>() -> Cell<T> {
    Arc::new(Mutex::new(None))
}
pub fn take<T>(c: &Cell<T>) -> Option<T> {
    c.lock().unwrap().take()
}
pub fn set<T>(c: &Cell<T>, v: T) {
    *c.lock().unwrap() = Some(v)
}
pub fn kindof(e: &Error) -> String {
    let s = format!("{:?}", e);
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
/// the same place in other words (the working directory is /w)
pub fn spelled(path: &str, seed: u64) -> String {
    let Some(rest) = path.strip_prefix("/w/") else { return path.into() };
    match mix(seed, 0x5be11) % 10 {
        0 => rest.into(),
        1 => format!("./{}", rest),
        2 => format!("../w/{}", rest),
        3 => format!("/w/./{}", rest),
        _ => path.into(),
    }
}
/// build with the given plan on one simulated thread
pub fn build(ctx: &mut Ctx, a: &Arch, tag: &str, dest: &str, plan: Plan) -> (Stop, Option<Result<(), Error>>) {
    simos::phase(plan);
    let out = cell();
    let (o, a, tag, dest) = (out.clone(), a.clone(), tag.to_string(), spelled(dest, ctx.seed()));
    let st = ctx.single(move || {
        let b = a.builder(&tag);
        let r = b.build(&dest);
        set(&o, r);
    });
    let r = take(&out);
    (st, r)
}
pub fn features(a: &Arch) {
    feat(&format!("v{}", a.ver));
    for f in &a.files {
        let s = if f.size == 0 {
            "empty"
        } else if f.size <= a.sector() {
            "single"
        } else {
            "multi"
        };
        feat(&format!("{} comp={:#x} enc={} crc={}", s, a.eff_comp(f), if a.encrypted(f) { f.enc } else { 0 }, a.crc));
    }
}
/// compare everything in the archive with the model; must run on a simulated thread
pub fn check_contents(ar: &mut Archive, a: &Arch, pre: &str) {
    for f in &a.files {
        check_file(ar, a, &f.name, pre);
    }
    if a.list != 0 {
        check_file(ar, a, "(listfile)", pre);
    }
}
pub fn variants(a: &Arch, n: &str) -> Vec<Vec<u8>> {
    simos::without(|| a.model().get(&norm(n)).map(|v| v.iter().map(|x| x.1.clone()).collect()).unwrap_or_default())
}
pub fn describe(a: &Arch, n: &str) -> String {
    match a.files.iter().find(|f| norm(&f.name) == norm(n)) {
        Some(f) => format!("{} v{} {} comp={:#x} enc={} crc={}", n, a.ver, if f.size > a.sector() { "multi-sector" } else { "single-unit" }, a.eff_comp(f), if a.encrypted(f) { f.enc } else { 0 }, a.crc),
        None => format!("{} v{} comp={:#x} crc={}", n, a.ver, a.comp, a.crc),
    }
}
pub fn check_file(ar: &mut Archive, a: &Arch, n: &str, pre: &str) {
    let want = variants(a, n);
    match guard(|| ar.read_file(n)) {
        Some(Ok(d)) => {
            if !want.iter().any(|w| *w == d) {
                fail(&format!("{}wrong-bytes", pre), format!("{}: {}", describe(a, n), want.first().map(|w| diff(w, &d)).unwrap_or_else(|| "a file that was never added".into())));
            }
        }
        Some(Err(e)) => fail(&format!("{}read-error {}", pre, kindof(&e)), format!("{}: {}", describe(a, n), e)),
        None => {}
    }
}
// ---- C01 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S01 {
    a: Arch,
    w: RateSpec,
    r: RateSpec,
    lazy: bool,
}
/// An archive beyond 4 GiB: big files that are mostly zero, small ones in front of, between and
/// behind them.
#[derive(Serialize, Deserialize)]
struct Giant {
    giant: u8, // format version
    big: Vec<u64>,
    comp: u8,
    enc: u8,
    crc: bool,
    list: u8,
}
fn gen_giant(r: &mut Rng, ver: u8) -> Value {
    let n = r.range(5, 7);
    let each = (4u64 << 30) / n + r.range(1, 40 << 20);
    to_value(Giant { giant: ver, big: (0..n).map(|_| each + r.below(5000)).collect(), comp: *r.pick(&[0u8, 2]), enc: r.below(4) as u8, crc: r.chance(1, 4), list: *r.pick(&[0u8, 1, 1]) }).unwrap()
}
fn run_giant(ctx: &mut Ctx, g: Giant) {
    // (one file of more than 4 GiB, or several that add up to that)
    if g.big.is_empty() || g.big.len() > 8 || g.big.iter().sum::<u64>() > 6 << 30 {
        return;
    }
    crate::run::long_run();
    let mut files = vec![];
    let mark = |k: usize| format!("this is big file {}", k).into_bytes();
    for k in 0..=g.big.len() {
        files.push(FileSpec { name: format!("small\\{}.txt", k), size: 900 + 700 * k as u64, kind: 2, cseed: 77 + k as u64, comp: g.comp, enc: g.enc, locale: 0, path: false });
        if k < g.big.len() {
            files.push(FileSpec { name: format!("big\\{}.bin", k), size: 0, kind: 0, cseed: 0, comp: 0, enc: 0, locale: 0, path: true });
        }
    }
    let a = Arch { ver: g.giant.clamp(1, 4), block: 10, comp: 2, list: g.list, crc: g.crc, ctab: false, tcomp: 2, files };
    for (i, f) in a.files.iter().enumerate() {
        if f.path {
            let (k, n) = (i / 2, g.big[i / 2]);
            simos::sim().fs.put_sparse(&format!("/w/src/{}", i), n, &[(0, mark(k)), (n.saturating_sub(100), mark(k))]);
        }
    }
    feat(&format!("giant v{}", a.ver));
    let (st, r) = build(ctx, &a, "", "/w/out.mpq", Plan::default());
    if !ctx.must_finish("build", &st) {
        return;
    }
    match r {
        Some(Ok(())) => {}
        // the first format cannot hold that much, none can hold such a file
        Some(Err(_)) if a.ver == 1 || g.big.iter().any(|b| *b >= 1 << 32) => return,
        Some(Err(e)) => return fail(&format!("build-error {}", kindof(&e)), format!("building failed without any fault: {}", e)),
        None => return,
    }
    simos::phase(Plan::default());
    let st = ctx.single(move || match guard(|| Archive::open("/w/out.mpq")) {
        Some(Ok(mut ar)) => {
            for f in a.files.iter().filter(|f| !f.path) {
                check_file(&mut ar, &a, &f.name, "giant ");
            }
            for k in [0, g.big.len() - 1] {
                let n = g.big[k] as usize;
                match guard(|| ar.read_file(&format!("big\\{}.bin", k))) {
                    Some(Ok(d)) => {
                        let m = format!("this is big file {}", k).into_bytes();
                        if d.len() != n || d[..m.len()] != m[..] || d[n - 100..n - 100 + m.len()] != m[..] || d[m.len()..n - 100].iter().any(|x| *x != 0) {
                            fail("giant wrong-bytes", format!("big\\{}.bin of {} bytes in a version {} archive beyond 4 GiB has other contents", k, n, a.ver));
                        }
                    }
                    Some(Err(e)) => fail(&format!("giant read-error {}", kindof(&e)), format!("big\\{}.bin of {} bytes in a version {} archive beyond 4 GiB: {}", k, n, a.ver, e)),
                    None => {}
                }
            }
            if g.list == 1 {
                match guard(|| ar.list()) {
                    Some(Ok(l)) if l.len() == a.files.len() + 1 => {}
                    Some(Ok(l)) => fail("giant list", format!("{} entries listed of {}", l.len(), a.files.len() + 1)),
                    Some(Err(e)) => fail("giant list", format!("listing: {}", e)),
                    None => {}
                }
            }
        }
        Some(Err(e)) => fail(&format!("giant open-error {}", kindof(&e)), format!("version {} archive beyond 4 GiB just built cannot be opened: {}", a.ver, e)),
        None => {}
    });
    ctx.must_finish("read", &st);
}
fn gen01(r: &mut Rng, i: u64, t: &str) -> Value {
    // very large archives, one at a time
    if i == 48 || (t == "thorough" && i % 4000 == 48) {
        let ver = if t == "thorough" { r.range(1, 4) } else { r.range(2, 4) } as u8;
        return gen_giant(r, ver);
    }
    if i == 57 {
        return gen_giant(r, 1);
    }
    if i == 66 {
        return to_value(Giant { giant: r.range(1, 4) as u8, big: vec![(1 << 32) + r.below(5000)], comp: 2, enc: r.below(4) as u8, crc: r.chance(1, 2), list: 1 }).unwrap();
    }
    let mut a = arch(r, &ArchOpts { max_files: 14, locales: true, big: true });
    // more files than 16 bits can count
    if matches!(i, 84 | 86) || i % 600 == 75 {
        let n = if matches!(i, 84 | 86) { 66_000 } else { *r.pick(&[2_000u64, 4_000, 8_000, 16_200, 32_700, 65_500]) } + r.below(600);
        let ver = match i {
            84 => r.range(1, 2) as u8,
            86 => r.range(3, 4) as u8,
            _ => a.ver,
        };
        return to_value(Crowd { crowd: ver, n, list: a.list.min(1), crc: a.crc, ctab: a.ctab }).unwrap();
    }
    // files of some megabytes
    if i % 150 == 93 {
        a.block = *r.pick(&[0u16, 3, 3, 4, 7, 11, 12, 13]);
        a.files.truncate(3);
        let f = FileSpec { name: "large.bin".into(), size: (1 << 20 << r.below(3)) + *r.pick(&[0u64, 1, 5, 4095, 700_000]), kind: r.below(8) as u8, cseed: r.u64() >> 12, comp: *r.pick(&[0u8, 2, 2, 0x10]), enc: r.below(4) as u8, locale: 0, path: r.chance(1, 2) };
        a.files.push(f);
    }
    if r.chance(1, 12) {
        // many small files
        let n = match r.below(12) {
            0 => r.range(250, 530),
            1 => r.range(1000, 1100),
            _ => r.range(20, 150),
        } as usize;
        let ns = names(r, n);
        let k = r.below(8) as u8;
        a.files = ns.into_iter().map(|name| FileSpec { name, size: r.range(0, 200), kind: k, cseed: r.u64() >> 12, comp: 255, enc: r.below(4) as u8, locale: 0, path: false }).collect();
    }
    to_value(S01 { a, w: RateSpec::benign(r), r: RateSpec::benign(r), lazy: r.chance(1, 4) }).unwrap()
}
/// Very many very small files.
#[derive(Serialize, Deserialize)]
struct Crowd {
    crowd: u8, // format version
    n: u64,
    list: u8,
    crc: bool,
    ctab: bool,
}
fn run_crowd(ctx: &mut Ctx, c: Crowd) {
    let n = c.n.min(80_000);
    crate::run::long_run();
    let files = (0..n).map(|k| FileSpec { name: format!("d{}\\f{}", k % 97, k), size: k % 23, kind: 3, cseed: k, comp: 0, enc: 0, locale: 0, path: false }).collect();
    let a = Arch { ver: c.crowd.clamp(1, 4), block: 3, comp: 0, list: c.list, crc: c.crc, ctab: c.ctab, tcomp: 2, files };
    feat(&format!("crowd v{}", a.ver));
    let (st, r) = build(ctx, &a, "", "/w/out.mpq", Plan::default());
    if !ctx.must_finish("build", &st) {
        return;
    }
    match r {
        Some(Ok(())) => {}
        Some(Err(e)) => return fail(&format!("build-error {}", kindof(&e)), format!("building an archive of {} files failed without any fault: {}", n, e)),
        None => return,
    }
    simos::phase(Plan::default());
    let st = ctx.single(move || match guard(|| Archive::open("/w/out.mpq")) {
        Some(Ok(mut ar)) => {
            for f in &a.files {
                match guard(|| ar.read_file(&f.name)) {
                    Some(Ok(d)) if d == simos::without(|| f.data()) => {}
                    Some(Ok(d)) => return fail("crowd wrong-bytes", format!("{} of {} files (v{}) has other contents: {}", f.name, n, a.ver, diff(&f.data(), &d))),
                    Some(Err(e)) => return fail(&format!("crowd read-error {}", kindof(&e)), format!("{} of {} files (v{}): {}", f.name, n, a.ver, e)),
                    None => return,
                }
            }
            if a.list != 0 {
                match guard(|| ar.list()) {
                    Some(Ok(l)) if l.len() == a.files.len() + 1 => {}
                    Some(Ok(l)) => fail("crowd list", format!("{} entries listed of {}", l.len(), a.files.len() + 1)),
                    Some(Err(e)) => fail("crowd list", format!("listing: {}", e)),
                    None => {}
                }
            }
        }
        Some(Err(e)) => fail(&format!("crowd open-error {}", kindof(&e)), format!("an archive of {} files (v{}) just built cannot be opened: {}", n, a.ver, e)),
        None => {}
    });
    ctx.must_finish("read", &st);
}
fn run01(ctx: &mut Ctx, v: &Value) {
    if let Ok(c) = serde_json::from_value::<Crowd>(v.clone()) {
        return run_crowd(ctx, c);
    }
    if let Ok(g) = serde_json::from_value::<Giant>(v.clone()) {
        return run_giant(ctx, g);
    }
    let Ok(s) = serde_json::from_value::<S01>(v.clone()) else { return };
    if s.a.files.iter().any(|f| f.size > 900_000) {
        crate::run::long_run();
    }
    let a = s.a.clone();
    a.put_sources("");
    features(&a);
    let (st, r) = build(ctx, &a, "", "/w/out.mpq", Plan { seed: ctx.seed(), rates: s.w.rates(), ..Default::default() });
    if !ctx.must_finish("build", &st) {
        return;
    }
    if a.has_duplicates() {
        return; // C02
    }
    match r {
        Some(Ok(())) => {}
        Some(Err(e)) => return fail(&format!("build-error {}", kindof(&e)), format!("building failed without any fault: {} ({})", e, a.files.iter().map(|f| describe(&a, &f.name)).collect::<Vec<_>>().join("; "))),
        None => return,
    }
    simos::phase(Plan { seed: ctx.seed() ^ 7, rates: s.r.rates(), ..Default::default() });
    let lazy = s.lazy;
    let st = ctx.single(move || {
        let ar = if lazy {
            guard(|| mopaq::OpenOptions::new().load_tables(false).open("/w/out.mpq").and_then(|mut x| x.load_tables().map(|_| x)))
        } else {
            guard(|| Archive::open("/w/out.mpq"))
        };
        match ar {
            Some(Ok(mut ar)) => {
                check_contents(&mut ar, &a, "");
                // reading does not depend on the order or on earlier reads
                for f in a.files.iter().rev() {
                    check_file(&mut ar, &a, &f.name, "again ");
                }
            }
            Some(Err(e)) => fail(&format!("open-error {}", kindof(&e)), format!("archive just built cannot be opened: {}", e)),
            None => {}
        }
    });
    ctx.must_finish("read", &st);
}
// ---- C02 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S02 {
    a: Arch,
    probes: Vec<String>,
    w: RateSpec,
}
fn respell(r: &mut Rng, n: &str) -> String {
    n.chars()
        .map(|c| {
            if c == '/' || c == '\\' {
                if r.chance(1, 2) {
                    '/'
                } else {
                    '\\'
                }
            } else if r.chance(1, 2) {
                c.to_ascii_uppercase()
            } else {
                c.to_ascii_lowercase()
            }
        })
        .collect()
}
fn near(r: &mut Rng, n: &str) -> String {
    let mut v: Vec<char> = n.chars().collect();
    if v.is_empty() {
        return "x".into();
    }
    let i = r.below(v.len() as u64) as usize;
    match r.below(6) {
        0 => {
            v.remove(i);
        }
        1 => v.insert(i, *r.pick(&['a', '0', ' ', '.', '_', '\\'])),
        2 => v[i] = ((v[i] as u32 as u8) ^ (1 << r.below(5))).clamp(0x20, 0x7e) as char,
        3 => v.push(*r.pick(&['x', '.', ' ', '0'])),
        4 => {
            let j = r.below(v.len() as u64) as usize;
            v.swap(i, j)
        }
        _ => {
            let s: String = v.iter().collect();
            return format!("{}{}", r.pick(&["\\", "a\\", ".\\", "x"]), s);
        }
    }
    v.into_iter().collect()
}
fn gen02(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let n = match r.below(5) {
        0 => r.range(0, 2),
        1 => r.range(30, 120),
        2 => *r.pick(&[7u64, 8, 9, 15, 16, 17, 31, 32, 33]),
        _ => r.range(2, 20),
    } as usize;
    let mut ns = names(r, n);
    if r.chance(1, 3) {
        // more names with colliding hashes, alone or in pairs
        for _ in 0..r.range(1, 4) {
            let (x, y) = twins(r);
            if ns.contains(&x) || ns.contains(&y) {
                continue;
            }
            let at = r.below(ns.len() as u64 + 1) as usize;
            ns.insert(at, x);
            if r.chance(1, 2) {
                let at = r.below(ns.len() as u64 + 1) as usize;
                ns.insert(at, y);
            }
        }
    }
    let mut files: Vec<FileSpec> = ns.into_iter().enumerate().map(|(i, name)| FileSpec { name, size: if r.chance(1, 3) { r.range(0, 1500) } else { 10 + i as u64 }, kind: *r.pick(&[1u8, 2, 3]), cseed: r.u64() >> 12, comp: *r.pick(&[255u8, 0, 2, 2, 0x10]), enc: r.below(4) as u8, locale: 0, path: false }).collect();
    if r.chance(1, 5) {
        // files that exist in one language only
        for f in &mut files {
            if r.chance(1, 3) {
                f.locale = *r.pick(&[0x409u16, 0x407, 0x40c]);
            }
        }
    }
    if !files.is_empty() && r.chance(1, 4) {
        // the same name once more: same language (refused) or another (kept apart)
        let i = r.below(files.len() as u64) as usize;
        let mut f = files[i].clone();
        f.name = respell(r, &f.name);
        f.comp = 2;
        f.enc = 0;
        f.cseed ^= 1;
        f.size += 3;
        if r.chance(1, 2) {
            f.locale = *r.pick(&[0x409u16, 0x407]);
        }
        let at = r.below(files.len() as u64 + 1) as usize;
        files.insert(at, f);
    }
    let a = Arch { ver: r.range(1, 4) as u8, block: *r.pick(&[0u16, 3, 5]), comp: *r.pick(&[0u8, 2]), list: *r.pick(&[0u8, 1, 1]), crc: r.chance(1, 3), ctab: r.chance(1, 4), tcomp: 2, files };
    let mut probes = vec![];
    for _ in 0..r.range(10, 60) {
        let n = if a.files.is_empty() { "none".to_string() } else { a.files[r.below(a.files.len() as u64) as usize].name.clone() };
        probes.push(match r.below(5) {
            0 => respell(r, &n),
            1 => near(r, &n),
            2 => {
                let m = near(r, &n);
                near(r, &m)
            }
            3 => format!("absent{}.dat", r.below(100000)),
            _ => r.pick(&["(listfile)", "(attributes)", "(signature)", "(hash table)", "", "x", "file_00000000.dat", "(LISTFILE)"]).to_string(),
        });
    }
    for f in &a.files {
        probes.extend(twin_of(&f.name));
    }
    to_value(S02 { a, probes, w: RateSpec::benign(r) }).unwrap()
}
fn run02(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S02>(v.clone()) else { return };
    let a = s.a.clone();
    a.put_sources("");
    sim().fs.put("/w/out.mpq", b"previous");
    let (st, r) = build(ctx, &a, "", "/w/out.mpq", Plan { seed: ctx.seed(), rates: s.w.rates(), ..Default::default() });
    if !ctx.must_finish("build", &st) {
        return;
    }
    if a.has_duplicates() {
        feat("duplicate refused");
        if let Some(Ok(())) = r {
            fail("duplicate-accepted", "the same name was added twice in the same language and the build succeeded".into());
        }
        if sim().fs.get("/w/out.mpq").as_deref() != Some(b"previous") {
            fail("duplicate-touched-destination", "a refused build changed the destination".into());
        }
        return;
    }
    match r {
        Some(Ok(())) => {}
        Some(Err(e)) => return fail(&format!("build-error {}", kindof(&e)), format!("building failed without any fault: {}", e)),
        None => return,
    }
    feat(&format!("v{} files {}", a.ver, match a.files.len() { 0 => "0", 1..=7 => "1-7", 8..=29 => "8-29", _ => "30+" }));
    simos::phase(Plan { seed: ctx.seed() ^ 7, rates: s.w.rates(), ..Default::default() });
    let probes = s.probes.clone();
    let st = ctx.single(move || {
        let mut ar = match guard(|| Archive::open("/w/out.mpq")) {
            Some(Ok(x)) => x,
            Some(Err(e)) => return fail(&format!("open-error {}", kindof(&e)), format!("archive just built cannot be opened: {}", e)),
            None => return,
        };
        let mut asked: Vec<String> = a.files.iter().map(|f| f.name.clone()).collect();
        asked.extend(probes.iter().cloned());
        let model = a.model();
        for n in &asked {
            let want = model.get(&norm(n)).cloned().unwrap_or_default();
            let got = guard(|| ar.find_file(n));
            let Some(got) = got else { continue };
            match got {
                Err(e) => fail(&format!("find-error {}", kindof(&e)), format!("looking up {:?}: {}", n, e)),
                Ok(None) => {
                    if !want.is_empty() {
                        fail("present-not-found", format!("{:?} was added but is reported as not found (v{}, {} files)", n, a.ver, a.files.len()));
                    }
                }
                Ok(Some(i)) => {
                    if want.is_empty() {
                        fail("absent-found", format!("{:?} was never added but is found with {} bytes (v{}, {} files)", n, i.file_size, a.ver, a.files.len()));
                    } else if !want.iter().any(|w| w.1.len() as u64 == i.file_size) {
                        fail("wrong-size", format!("{:?} has {} bytes, lookup says {} (v{}, {} files)", n, want[0].1.len(), i.file_size, a.ver, a.files.len()));
                    } else if let Some(f) = a.files.iter().find(|f| norm(&f.name) == norm(n) && f.size == i.file_size) {
                        if want.len() == 1 && i.is_encrypted() != a.encrypted(f) {
                            fail("wrong-attributes", format!("{:?}: encrypted flag {} for a file added with {}", n, i.is_encrypted(), a.encrypted(f)));
                        }
                        if want.len() == 1 && i.has_fix_key() != (f.enc == 2) {
                            fail("wrong-attributes", format!("{:?}: adjusted-key flag {} for a file added with mode {}", n, i.has_fix_key(), f.enc));
                        }
                        if i.is_compressed() && a.eff_comp(f) == 0 && f.size <= a.sector() {
                            fail("wrong-attributes", format!("{:?}: compressed flag on a file added without compression", n));
                        }
                    }
                }
            }
            // reading by the name agrees with the lookup
            match guard(|| ar.read_file(n)) {
                Some(Ok(d)) => {
                    if !want.iter().any(|w| w.1 == d) {
                        fail("foreign-bytes", format!("reading {:?} gave bytes that are not that file's", n));
                    }
                }
                Some(Err(Error::FileNotFound(_))) if want.is_empty() => {}
                // an encrypted file's key is taken from the spelling-independent name, so this must not fail
                Some(Err(e)) => fail(&format!("read-error {}", kindof(&e)), format!("reading {:?}: {}", n, e)),
                None => {}
            }
        }
    });
    ctx.must_finish("lookup", &st);
}
// ---- C03 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S03 {
    a: Arch,
    r: RateSpec,
    dead: u32,
}
fn gen03(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 40, locales: false, big: false });
    a.list = *r.pick(&[0u8, 1, 1, 1, 2]);
    scale(r, &mut a);
    if r.chance(1, 12) {
        // names with unusual first and last characters
        for f in &mut a.files {
            if r.chance(1, 3) {
                f.name = format!("{}{}", r.pick(&["//", "/", "\\", "*", "!", "--", "@", "%s", "=", "..\\", "(", "\"", "'", "$", "?"]), f.name);
            }
            if r.chance(1, 4) {
                f.name.push_str(*r.pick(&["\\", "/", ".", "..", ")", "\"", ",", "=", ":", "*", "~", "-", "$"]));
            }
        }
    }
    let rates = match r.below(4) {
        0 => RateSpec::default(),
        1 => RateSpec::benign(r),
        _ => RateSpec { short: 100, eintr: 50, read_err: *r.pick(&[20u32, 100, 300]), meta_err: *r.pick(&[0u32, 50]), ..Default::default() },
    };
    to_value(S03 { a, r: rates, dead: if r.chance(1, 6) { r.range(1, 60) as u32 } else { 0 } }).unwrap()
}
fn run03(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S03>(v.clone()) else { return };
    let a = s.a.clone();
    if a.has_duplicates() {
        return;
    }
    a.put_sources("");
    let (st, r) = build(ctx, &a, "", "/w/out.mpq", run::plan(ctx.seed()));
    if !ctx.must_finish("build", &st) || !matches!(r, Some(Ok(()))) {
        return;
    }
    let mut plan = Plan { seed: ctx.seed() ^ 7, rates: s.r.rates(), ..Default::default() };
    if s.dead > 0 {
        plan.dead_from = Some(s.dead as u64);
        plan.dead_errno = libc::EIO;
        plan.dead_reads = true;
    }
    simos::phase(plan);
    let st = ctx.single(move || {
        let mut want: Vec<(String, u64)> = a.files.iter().map(|f| (f.name.clone(), f.size)).collect();
        if let Some(l) = a.listfile_bytes() {
            want.push(("(listfile)".into(), l.len() as u64));
        }
        want.sort();
        let mut sizes: Vec<u64> = want.iter().map(|x| x.1).collect();
        sizes.sort();
        let mut open = None;
        for round in 0..3 {
            if round == 2 {
                // faults over: everything has to be right now
                simos::phase(run::plan(1));
                if open.is_none() {
                    open = guard(|| Archive::open("/w/out.mpq")).and_then(|r| r.ok());
                    if open.is_none() {
                        fail("open-error", "archive cannot be opened after the faults stopped".into());
                    }
                }
            } else if open.is_none() {
                open = guard(|| Archive::open("/w/out.mpq")).and_then(|r| r.ok());
            }
            let Some(ar) = open.as_mut() else { continue };
            let faulty = round < 2;
            for which in 0..4 {
                let r = guard(|| match which {
                    0 => ar.list(),
                    1 => ar.list_with_hashes(),
                    2 => ar.list_all(),
                    _ => ar.list_all_with_hashes(),
                });
                let Some(r) = r else { continue };
                match r {
                    Err(e) => {
                        if !faulty {
                            fail(&format!("list-error {}", kindof(&e)), format!("listing failed after the faults stopped: {}", e));
                        } else {
                            feat("list refused under fault");
                        }
                    }
                    Ok(l) => {
                        feat(&format!("listed {} list={} v{}", which, a.list, a.ver));
                        if which < 2 && a.list != 0 {
                            let mut got: Vec<(String, u64)> = l.iter().map(|e| (e.name.clone(), e.size)).collect();
                            got.sort();
                            if got != want {
                                let miss: Vec<_> = want.iter().filter(|w| !got.contains(w)).take(3).collect();
                                let extra: Vec<_> = got.iter().filter(|w| !want.contains(w)).take(3).collect();
                                fail("wrong-list", format!("listing call {} gave {} entries for {} files (v{}); missing or altered {:?}, unexpected {:?}", which, got.len(), want.len(), a.ver, miss, extra));
                            }
                            for e in &l {
                                if let Some(f) = a.files.iter().find(|f| f.name == e.name) {
                                    if e.is_encrypted() != a.encrypted(f) || !e.exists() {
                                        fail("wrong-list-attributes", format!("{}: flags {:#x} in the listing", e.name, e.flags));
                                    }
                                }
                            }
                        } else {
                            let mut got: Vec<u64> = l.iter().map(|e| e.size).collect();
                            got.sort();
                            if got != sizes {
                                fail("wrong-enumeration", format!("enumeration call {} gave {} entries (sizes {:?}) for {} files (sizes {:?}) (v{})", which, got.len(), &got[..got.len().min(6)], sizes.len(), &sizes[..sizes.len().min(6)], a.ver));
                            }
                            let mut ns: Vec<&str> = l.iter().map(|e| e.name.as_str()).collect();
                            ns.sort();
                            ns.dedup();
                            if ns.len() != l.len() {
                                fail("entry-twice", format!("enumeration call {} names an entry twice", which));
                            }
                        }
                    }
                }
            }
        }
    });
    ctx.must_finish("list", &st);
}
// ---- C04 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S04 {
    old: u8,
    a: Arch,
    b: Arch,
    frac: u32,
    power: bool,
    torn: u32,
    w: RateSpec,
    crashes: u32,
}
fn gen04(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let o = ArchOpts { max_files: 6, locales: false, big: false };
    let mut a = arch(r, &o);
    let mut b = arch(r, &o);
    for x in [&mut a, &mut b] {
        for f in &mut x.files {
            f.size = f.size.min(20_000);
        }
        scale(r, x);
    }
    let w = match r.below(3) {
        0 => RateSpec { meta_err: *r.pick(&[0u32, 0, 20]), rare_err: *r.pick(&[100u32, 300, 600]), write_err: *r.pick(&[0u32, 0, 2]), ..RateSpec::benign(r) },
        _ => RateSpec::benign(r),
    };
    to_value(S04 { old: r.below(4) as u8, a, b, frac: r.u64() as u32, power: r.chance(2, 3), torn: r.u64() as u32, w, crashes: r.range(1, 2) as u32 }).unwrap()
}
fn tree_but(dest: &str) -> Vec<String> {
    sim().fs.tree().into_iter().filter(|(p, v)| v.is_some() && p != dest && !p.starts_with("/w/src")).map(|x| x.0).collect()
}
fn run04(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S04>(v.clone()) else { return };
    if s.a.has_duplicates() || s.b.has_duplicates() {
        return;
    }
    let dest = "/w/out.mpq";
    s.a.put_sources("a");
    s.b.put_sources("b");
    // what a completed build of `b` looks like, and how many operations it takes
    let (st, r) = build(ctx, &s.b, "b", "/w/ref.mpq", run::plan(1));
    if !ctx.must_finish("build", &st) || !matches!(r, Some(Ok(()))) {
        return;
    }
    let new = sim().fs.get("/w/ref.mpq").unwrap_or_default();
    let ops = sim().op;
    simos::phase(run::plan(1));
    ctx.single(|| {
        std::fs::remove_file("/w/ref.mpq").ok();
    });
    // what is there before
    match s.old {
        0 => {}
        1 => sim().fs.put(dest, b"not an archive, but precious"),
        _ => {
            let (_, r) = build(ctx, &s.a, "a", dest, run::plan(2));
            if !matches!(r, Some(Ok(()))) {
                return;
            }
        }
    }
    sim().fs.sync_all();
    let old = sim().fs.get(dest);
    for round in 0..s.crashes.clamp(1, 3) {
        let mut k = 1 + (mix(s.frac as u64, round as u64) % (ops + 2));
        if s.frac & 3 == 3 {
            // around the end
            k = (ops + 12).saturating_sub(mix(s.frac as u64, round as u64) % 24).max(1);
        }
        let plan = Plan { seed: ctx.seed() ^ round as u64, rates: s.w.rates(), at: vec![(k, Fault::Crash { power: s.power, torn: s.torn })], ..Default::default() };
        let (st, r) = build(ctx, &s.b, "b", dest, plan);
        if !ctx.must_finish("build", &st) {
            return;
        }
        let crashed = st == Stop::Crash;
        let now = sim().fs.get(dest);
        if crashed {
            feat(if s.power { "power loss during build" } else { "kill during build" });
        } else {
            let hard = sim().injected.iter().any(|i| !matches!(i.fault, Fault::Short(_) | Fault::Errno(libc::EINTR)));
            feat(if matches!(r, Some(Err(_))) { "build refused" } else { "build completed" });
            if let (Some(Err(e)), false) = (&r, hard) {
                fail(&format!("build-error {}", kindof(e)), format!("building failed without a failure: {}", e));
            }
        }
        let is_new = now.as_deref() == Some(&new[..]);
        if !is_new && now != old {
            let what = match &now {
                None => "nothing".to_string(),
                Some(d) => format!("{} bytes that are neither the old {:?} bytes nor the new {} bytes", d.len(), old.as_ref().map(|o| o.len()), new.len()),
            };
            fail("destination-torn", format!("after {} at operation {} the destination holds {}", if crashed { if s.power { "power loss" } else { "a kill" } } else { "a completed build" }, k, what));
            return;
        }
        if !crashed {
            if !is_new && matches!(r, Some(Ok(()))) {
                fail("success-without-archive", "the build reported success but the destination still holds the old content".into());
            }
            // a completed build survives a later power loss as old or new, never torn
            let mut rr = Rng::new(mix(ctx.seed(), 0x77));
            sim().fs.power_loss(&mut rr);
            let after = sim().fs.get(dest);
            feat("power loss after build");
            if after.as_deref() != Some(&new[..]) && after != old {
                fail("destination-torn", format!("power loss after a completed build leaves {:?} bytes at the destination (old {:?}, new {})", after.map(|d| d.len()), old.as_ref().map(|o| o.len()), new.len()));
                return;
            }
            break;
        }
        if is_new {
            break;
        }
    }
    // a new build to the same path succeeds and is complete
    let (st, r) = build(ctx, &s.b, "b", dest, run::plan(ctx.seed()));
    if !ctx.must_finish("rebuild", &st) {
        return;
    }
    match r {
        Some(Ok(())) => {
            if sim().fs.get(dest).as_deref() != Some(&new[..]) {
                fail("rebuild-differs", "the build after the crash gave a different archive".into());
            }
        }
        Some(Err(e)) => fail("rebuild-failed", format!("building again after the crash failed: {}", e)),
        None => {}
    }
}
// ---- C05 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S05 {
    old: bool,
    a: Arch,
    w: RateSpec,
    /// 0 rates, 1 one error at a point, 2 disk full, 3 disk dies, 4 source missing, 5 source directory, 6 destination directory missing, 7 destination is a directory
    mode: u8,
    frac: u32,
    errno: u8,
}
fn gen05(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 6, locales: false, big: false });
    for f in &mut a.files {
        f.size = f.size.min(40_000);
        if r.chance(1, 2) {
            f.path = true;
            f.enc = f.enc.min(1);
        }
    }
    scale(r, &mut a);
    let mode = *r.pick(&[0u8, 0, 8, 8, 1, 1, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7]);
    let w = if mode == 0 { RateSpec { short: 100, eintr: 50, read_err: *r.pick(&[0u32, 5, 30]), write_err: *r.pick(&[1u32, 5, 30, 200]), meta_err: *r.pick(&[0u32, 30, 200]), ..Default::default() } } else if mode == 8 { RateSpec { rare_err: *r.pick(&[200u32, 500, 900]), ..RateSpec::benign(r) } } else { RateSpec::benign(r) };
    to_value(S05 { old: r.chance(2, 3), a, w, mode, frac: r.u64() as u32, errno: r.below(5) as u8 }).unwrap()
}
fn run05(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S05>(v.clone()) else { return };
    let a = s.a.clone();
    if a.has_duplicates() {
        return;
    }
    a.put_sources("");
    let (st, r) = build(ctx, &a, "", "/w/ref.mpq", run::plan(1));
    if !ctx.must_finish("build", &st) || !matches!(r, Some(Ok(()))) {
        return;
    }
    let new = sim().fs.get("/w/ref.mpq").unwrap_or_default();
    let ops = sim().op;
    simos::phase(run::plan(1));
    ctx.single(|| {
        std::fs::remove_file("/w/ref.mpq").ok();
    });
    let mut dest = "/w/out.mpq".to_string();
    let mut expect_err = false;
    if s.old {
        sim().fs.put(&dest, b"the old archive");
    }
    let mut plan = Plan { seed: ctx.seed(), rates: s.w.rates(), ..Default::default() };
    let used: Vec<usize> = a.files.iter().enumerate().filter(|(_, f)| f.path && f.enc < 2).map(|x| x.0).collect();
    match s.mode {
        1 => {
            let e = [libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE, libc::EROFS][s.errno as usize % 5];
            let k = 1 + (s.frac as u64 * ops >> 32);
            plan.at = vec![(k, Fault::Errno(e))];
        }
        2 => {
            let need = new.len() as u64 + 64;
            plan.capacity = Some(sim().fs.used() + (s.frac as u64 * need >> 32));
        }
        3 => {
            plan.dead_from = Some(1 + (s.frac as u64 * ops >> 32));
            plan.dead_errno = if s.errno % 2 == 0 { libc::EIO } else { libc::ENOSPC };
            plan.dead_writes = true;
            plan.dead_reads = s.errno % 3 == 0;
        }
        4 | 5 => {
            if let Some(i) = used.get(s.frac as usize % used.len().max(1)) {
                let p = format!("/w/src/{}", i);
                simos::phase(run::plan(1));
                let m = s.mode;
                ctx.single(move || {
                    std::fs::remove_file(&p).unwrap();
                    if m == 5 {
                        std::fs::create_dir(&p).unwrap();
                    }
                });
                expect_err = true;
            }
        }
        6 => {
            dest = "/w/nowhere/out.mpq".into();
            expect_err = true;
        }
        7 => {
            dest = "/w/adir".into();
            sim().fs.put_dirs("/w/adir/inner");
            expect_err = true;
        }
        _ => {}
    }
    let before = sim().fs.tree();
    let (st, r) = build(ctx, &a, "", &dest, plan);
    if !ctx.must_finish("build", &st) {
        return;
    }
    let n_inj = sim().injected.len();
    let unlink_faulted = sim().injected.iter().any(|i| i.at.starts_with("Unlink"));
    match r {
        None => return,
        Some(Ok(())) => {
            feat("build survived the faults");
            if expect_err {
                fail("success-impossible", format!("the build reported success although mode {} makes it impossible", s.mode));
            }
            let got = sim().fs.get(&dest);
            if got.as_deref() != Some(&new[..]) {
                fail("success-but-wrong", format!("the build reported success but the destination holds {:?} bytes instead of the complete {} bytes ({} faults injected)", got.map(|d| d.len()), new.len(), n_inj));
            }
            let stray: Vec<String> = sim().fs.tree().into_keys().filter(|p| !before.contains_key(p) && *p != dest).collect();
            if !stray.is_empty() {
                fail("stray-files", format!("a successful build left {:?}", stray));
            }
        }
        Some(Err(e)) => {
            feat(&format!("build refused ({})", if n_inj > 0 { "fault" } else { "bad request" }));
            let hard = sim().injected.iter().any(|i| !matches!(i.fault, Fault::Short(_) | Fault::Errno(libc::EINTR)));
            if !hard && !expect_err && s.mode != 2 {
                fail("spurious-failure", format!("the build failed although nothing failed: {}", e));
            }
            let mut after = sim().fs.tree();
            if unlink_faulted {
                // the temporary file could not be removed: that one is excused
                let gone: Vec<String> = after.keys().filter(|p| !before.contains_key(*p)).cloned().collect();
                if gone.len() == 1 {
                    after.remove(&gone[0]);
                }
            }
            if after.get(&dest) != before.get(&dest) {
                fail("failure-touched-destination", format!("the build failed ({}) and changed the destination", e));
            }
            let stray: Vec<&String> = after.keys().filter(|p| !before.contains_key(*p)).collect();
            if !stray.is_empty() {
                fail("stray-files", format!("a failed build left {:?} ({})", stray, e));
            }
            if before.iter().any(|(p, v)| p != &dest && after.get(p) != Some(v)) {
                fail("failure-touched-other-files", "a failed build changed other files".into());
            }
        }
    }
    // once the fault is gone a retry succeeds
    if s.mode == 4 || s.mode == 5 {
        simos::phase(run::plan(1));
        ctx.single(move || {
            for i in used {
                std::fs::remove_dir(format!("/w/src/{}", i)).ok();
            }
        });
        a.put_sources("");
    }
    if s.mode < 6 || s.mode == 8 {
        let (st, r) = build(ctx, &a, "", &dest, run::plan(ctx.seed()));
        if !ctx.must_finish("retry", &st) {
            return;
        }
        match r {
            Some(Ok(())) if sim().fs.get(&dest).as_deref() == Some(&new[..]) => {}
            Some(Ok(())) => fail("retry-wrong", "the retry after the fault gave a different archive".into()),
            Some(Err(e)) => fail("retry-failed", format!("the retry after the fault failed: {}", e)),
            None => {}
        }
    }
}
// ---- C06 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S06 {
    /// the tables are not read on opening
    #[serde(default)]
    defer: bool,
    a: Arch,
    r: RateSpec,
    dead: u32,
    truncate: u32,
    steps: Vec<(u8, u32)>,
    open_faulty: bool,
}
fn gen06(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 10, locales: false, big: true });
    for f in &mut a.files {
        f.size = f.size.min(60_000);
    }
    scale(r, &mut a);
    let rates = match r.below(5) {
        0 => RateSpec::benign(r),
        1 => RateSpec { read_err: 15, ..Default::default() },
        2 => RateSpec { short: 300, eintr: 100, read_err: 30, ..Default::default() },
        3 => RateSpec { read_err: 200, ..Default::default() },
        _ => RateSpec { meta_err: 100, read_err: 50, ..Default::default() },
    };
    let defer = r.chance(1, 3);
    let n = if a.files.len() < 20 && r.chance(1, 60) { r.range(150, 500) } else { r.range(4, 25) };
    let steps = (0..n).map(|_| (if defer && r.chance(1, 3) { 9 } else { r.below(9) as u8 }, r.u64() as u32)).collect();
    to_value(S06 { defer, a, r: rates, dead: if r.chance(1, 5) { r.range(1, 80) as u32 } else { 0 }, truncate: if r.chance(1, 6) { r.u64() as u32 | 1 } else { 0 }, steps, open_faulty: r.chance(2, 3) }).unwrap()
}
fn run06(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S06>(v.clone()) else { return };
    let a = s.a.clone();
    if a.has_duplicates() {
        return;
    }
    a.put_sources("");
    let (st, r) = build(ctx, &a, "", "/w/out.mpq", run::plan(1));
    if !ctx.must_finish("build", &st) || !matches!(r, Some(Ok(()))) {
        return;
    }
    let full = sim().fs.get("/w/out.mpq").unwrap_or_default();
    let mut plan = Plan { seed: ctx.seed() ^ 7, rates: s.r.rates(), ..Default::default() };
    if s.dead > 0 {
        plan.dead_from = Some(s.dead as u64);
        plan.dead_errno = libc::EIO;
        plan.dead_reads = true;
    }
    let seed = ctx.seed();
    let (truncate, steps, open_faulty, defer) = (s.truncate, s.steps.clone(), s.open_faulty, s.defer);
    simos::phase(run::plan(1));
    let st = ctx.single(move || {
        let model = a.model();
        let mut open: Option<Archive> = None;
        let opener = || if defer { OpenOptions::new().load_tables(false).open("/w/out.mpq") } else { Archive::open("/w/out.mpq") };
        if !open_faulty {
            open = guard(opener).and_then(|r| r.ok());
        }
        simos::phase(plan);
        for (k, x) in &steps {
            if open.is_none() {
                open = match guard(opener) {
                    Some(Ok(a)) => {
                        feat("opened under faults");
                        Some(a)
                    }
                    Some(Err(_)) => {
                        feat("open refused");
                        None
                    }
                    None => return,
                };
            }
            if x % 9 == 0 {
                // the library's reader at any place of the file
                let at = *x as u64 * 2654435761 % (full.len() as u64 + 40);
                let mut buf = vec![0u8; 1 + *x as usize / 9 % 600];
                let r = guard(|| -> mopaq::Result<()> {
                    let mut rd = BufferedMpqReader::new(std::fs::File::open("/w/out.mpq")?);
                    rd.read_at(at / 2, &mut [0u8; 3]).ok();
                    rd.read_at(at, &mut buf)
                });
                match r {
                    Some(Ok(())) if full.get(at as usize..at as usize + buf.len()) != Some(&buf[..]) => fail("wrong-range", format!("{} bytes at {} of {} are not those of the file", buf.len(), at, full.len())),
                    Some(_) => feat("range read under faults"),
                    None => return,
                }
            }
            let Some(ar) = open.as_mut() else { continue };
            let mut ns: Vec<String> = a.files.iter().map(|f| f.name.clone()).collect();
            ns.push("(listfile)".into());
            ns.push("absent.txt".into());
            let n = &ns[*x as usize % ns.len()];
            let want: Vec<Vec<u8>> = model.get(&norm(n)).map(|v| v.iter().map(|x| x.1.clone()).collect()).unwrap_or_default();
            match k {
                0..=4 => match guard(|| ar.read_file(n)) {
                    Some(Ok(d)) => {
                        feat("read under faults");
                        if !want.iter().any(|w| *w == d) {
                            fail("wrong-bytes", format!("{}: {}", describe(&a, n), want.first().map(|w| diff(w, &d)).unwrap_or_default()));
                        }
                    }
                    Some(Err(Error::FileNotFound(_))) => {
                        if !want.is_empty() {
                            fail("false-not-found", format!("{:?} is in the archive but reading it reports not found (v{})", n, a.ver));
                        }
                    }
                    Some(Err(_)) => feat("read refused"),
                    None => return,
                },
                5 => match guard(|| ar.find_file(n)) {
                    Some(Ok(None)) if !want.is_empty() => fail("false-not-found", format!("{:?} is in the archive but lookup reports not found (v{})", n, a.ver)),
                    Some(Ok(Some(i))) => {
                        if want.is_empty() {
                            fail("absent-found", format!("{:?} is not in the archive but found", n));
                        } else if !want.iter().any(|w| w.len() as u64 == i.file_size) {
                            fail("wrong-size", format!("{:?} found with size {} under faults (v{})", n, i.file_size, a.ver));
                        }
                    }
                    Some(_) => {}
                    None => return,
                },
                6 => match guard(|| ar.get_info()) {
                    Some(Ok(i)) => {
                        feat("info under faults");
                        if i.file_size != full.len() as u64 || i.has_listfile != (a.list != 0) || i.sector_size as u64 != a.sector() {
                            fail("wrong-info", format!("archive information under faults: size {} listfile {} sector {}", i.file_size, i.has_listfile, i.sector_size));
                        }
                        let n = a.files.len() + (a.list != 0) as usize;
                        let empty = a.files.iter().filter(|f| f.size == 0).count();
                        if i.file_count != n && i.file_count != n - empty {
                            fail("wrong-info", format!("archive information reports {} files of {}", i.file_count, n));
                        }
                    }
                    Some(Err(_)) => feat("info refused"),
                    None => return,
                },
                7 => {
                    open = None;
                }
                _ => match guard(|| ar.load_tables()) {
                    Some(Ok(())) => feat("tables loaded under faults"),
                    Some(Err(_)) => feat("loading the tables refused"),
                    None => return,
                },
            }
        }
        // the file shrinks under the open archive
        if truncate != 0 {
            simos::phase(run::plan(1));
            if open.is_none() {
                open = guard(|| Archive::open("/w/out.mpq")).and_then(|r| r.ok());
            }
            let cut = (truncate as u64 * full.len() as u64 >> 32) as usize;
            let p = std::fs::OpenOptions::new().write(true).open("/w/out.mpq").unwrap();
            p.set_len(cut as u64).unwrap();
            if let Some(ar) = open.as_mut() {
                feat("truncated while open");
                for f in &a.files {
                    if let Some(Ok(d)) = guard(|| ar.read_file(&f.name)) {
                        if d != f.data() {
                            fail("wrong-bytes-truncated", format!("{}: file cut to {} bytes: {}", describe(&a, &f.name), cut, diff(&f.data(), &d)));
                        }
                    }
                }
            }
            use std::io::Write;
            drop(p);
            let mut p = std::fs::OpenOptions::new().write(true).truncate(true).open("/w/out.mpq").unwrap();
            p.write_all(&full).unwrap();
        }
        // faults over: the archive that is open answers correctly again
        simos::phase(run::plan(seed));
        if let Some(ar) = open.as_mut() {
            feat("same handle after the faults");
            if defer {
                match guard(|| ar.load_tables()) {
                    Some(Ok(())) => {}
                    Some(Err(e)) => return fail("load-error", format!("tables cannot be loaded after the faults: {}", e)),
                    None => return,
                }
            }
            check_contents(ar, &a, "after-faults ");
        }
        match guard(|| Archive::open("/w/out.mpq")) {
            Some(Ok(mut ar)) => check_contents(&mut ar, &a, "reopened "),
            Some(Err(e)) => fail("open-error", format!("cannot be opened after the faults: {}", e)),
            None => {}
        }
    });
    ctx.must_finish("reads", &st);
}
use crate::run;
pub fn props() -> Vec<Prop> {
    let _ = (tree_but as fn(&str) -> Vec<String>, json!(0));
    vec![
        Prop { id: "C01", gen: gen01, run: run01, quick: 12000, rule: "a random archive over all builder options is built and read back while reads and writes are split and interrupted; non-trivial: at least one file or option combination exercised (features)", real: REAL_LIB, stub: STUB_LIB, assume: ASSUME },
        Prop { id: "C02", gen: gen02, run: run02, quick: 30000, rule: "random sets of names, then lookups of respelled, nearly equal and absent names; non-trivial: an archive was built and probed, or a duplicate refused", real: REAL_LIB, stub: STUB_LIB, assume: ASSUME },
        Prop { id: "C03", gen: gen03, run: run03, quick: 14000, rule: "all four listing calls under read faults and after them; non-trivial: some listing succeeded or was refused under a fault", real: REAL_LIB, stub: STUB_LIB, assume: ASSUME },
        Prop { id: "C04", gen: gen04, run: run04, quick: 12000, rule: "a build over an existing destination is stopped by a kill or power loss at a random operation (or completes and power is lost later), then repeated; non-trivial: the stop happened or the build completed", real: REAL_LIB, stub: STUB_LIB, assume: ASSUME },
        Prop { id: "C05", gen: gen05, run: run05, quick: 12000, rule: "a build meets an error at a random operation, a full disk, a dying disk or bad sources; non-trivial: the build survived or was refused", real: REAL_LIB, stub: STUB_LIB, assume: ASSUME },
        Prop { id: "C06", gen: gen06, run: run06, quick: 25000, rule: "open, lookup, read and info calls while reads fail, are split or interrupted, or the file is cut; then again after the faults; non-trivial: some call succeeded or was refused under faults", real: REAL_LIB, stub: STUB_LIB, assume: ASSUME },
    ]
}
