//! C07, C09, C21: damaged media, table digests, embedded archives.
use super::core::*;
use super::*;
use crate::run::{self, *};
use crate::work::*;
use mopaq::Archive;
use serde::{Deserialize, Serialize};
use serde_json::to_value;
use simos::{sim, Plan};

/// one piece of damage to a byte range, given as fractions of the range
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dmg {
    /// 0 bit flip, 1 byte overwritten, 2 zeroed run, 3 random run, 4 run copied from elsewhere in the range (misdirected write), 5 tail from a point on (torn write), 6 bytes swapped, 7 shifted by one
    pub kind: u8,
    pub at: u32,
    pub len: u32,
    pub val: u32,
}
pub fn dmg(r: &mut Rng) -> Dmg {
    Dmg { kind: r.below(8) as u8, at: r.u64() as u32, len: *r.pick(&[1u32, 2, 3, 4, 8, 64, 512, 4096]), val: r.u64() as u32 }
}
fn frac(f: u32, n: usize) -> usize {
    (f as u64 * n as u64 >> 32) as usize
}
/// apply to `d[lo..hi]`; true if anything changed
pub fn damage(d: &mut [u8], lo: usize, hi: usize, g: &Dmg) -> bool {
    if lo >= hi || hi > d.len() {
        return false;
    }
    let n = hi - lo;
    let a = lo + frac(g.at, n);
    let e = (a + (g.len as usize).max(1)).min(hi);
    let old = d[lo..hi].to_vec();
    let mut r = Rng::new(g.val as u64);
    match g.kind {
        0 => d[a] ^= 1 << (g.val % 8),
        1 => d[a] = g.val as u8,
        2 => d[a..e].fill(0),
        3 => d[a..e].iter_mut().for_each(|b| *b = r.u64() as u8),
        4 => {
            let s = frac(g.val, n);
            for i in a..e {
                d[i] = old[(s + i - a) % n];
            }
        }
        5 => d[a..hi].iter_mut().for_each(|b| *b = if g.val & 1 == 0 { 0 } else { r.u64() as u8 }),
        6 => {
            let b = lo + frac(g.val, n);
            d.swap(a, b)
        }
        _ => d[a..hi].rotate_right(1),
    }
    let c = d[lo..hi] != old[..];
    if c {
        *sim().counts.entry("medium_damage".into()).or_insert(0) += 1;
    }
    c
}
pub fn adler(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in d {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}
fn u32at(d: &[u8], p: usize) -> u32 {
    d.get(p..p + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).unwrap_or(0)
}
fn u64at(d: &[u8], p: usize) -> u64 {
    d.get(p..p + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(0)
}
// ---- C07 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S07 {
    a: Arch,
    /// (file, damage)
    d: Vec<(u32, Dmg)>,
    before: bool,
    r: RateSpec,
}
fn gen07(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 8, locales: false, big: true });
    a.crc = true;
    if a.files.is_empty() {
        a.files = arch(r, &ArchOpts::default()).files;
    }
    for f in &mut a.files {
        f.size = f.size.min(100_000);
        // stored plainly the damage reaches the contents unhindered
        if r.chance(1, 2) {
            f.comp = 0;
        }
        if r.chance(1, 3) {
            f.enc = 0;
        }
    }
    scale(r, &mut a);
    let n = *r.pick(&[1u64, 1, 1, 2, 3]);
    let d = (0..n).map(|_| (r.u64() as u32, dmg(r))).collect();
    to_value(S07 { a, d, before: r.chance(1, 4), r: RateSpec::benign(r) }).unwrap()
}
pub struct Loc {
    pub name: String,
    pub pos: usize,
    pub csize: usize,
    pub size: usize,
    /// first byte of stored contents or checksums
    pub lo: usize,
    pub hi: usize,
    pub multi: bool,
}
/// where every file's stored contents lie in the intact archive
pub fn locate(a: &Arch, ar: &Archive, full: &[u8]) -> Option<Vec<Loc>> {
    let mut v = vec![];
    let mut ns: Vec<String> = a.files.iter().map(|f| f.name.clone()).collect();
    if a.list != 0 {
        ns.push("(listfile)".into());
    }
    for n in ns {
        let i = guard(|| ar.find_file(&n)).and_then(|x| x.ok()).flatten()?;
        v.push(Loc { name: n, pos: i.file_pos as usize, csize: i.compressed_size as usize, size: i.file_size as usize, lo: 0, hi: 0, multi: i.file_size > a.sector() });
    }
    let h = ar.header();
    let mut starts: Vec<usize> = v.iter().map(|l| l.pos).collect();
    starts.push(h.get_hash_table_pos() as usize);
    starts.push(h.get_block_table_pos() as usize);
    for p in [h.het_table_pos, h.bet_table_pos, h.hi_block_table_pos].into_iter().flatten() {
        if p > 0 {
            starts.push(p as usize);
        }
    }
    starts.push(full.len());
    starts.sort();
    let sector = a.sector() as usize;
    for l in &mut v {
        let n = l.size.div_ceil(sector);
        l.lo = l.pos + if l.multi { (n + 1) * 4 } else { 0 };
        l.hi = starts.iter().copied().find(|s| *s > l.pos).unwrap_or(full.len());
        l.lo = l.lo.min(l.hi);
    }
    Some(v)
}
pub fn collision(l: &Loc, sector: usize, disk: &[u8], d: &[u8]) -> bool {
    if d.len() != l.size {
        return false;
    }
    if l.multi {
        d.chunks(sector).enumerate().all(|(i, c)| u32at(disk, l.lo + 4 * i) == adler(c))
    } else {
        u32at(disk, l.pos + l.csize) == adler(d)
    }
}
fn run07(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S07>(v.clone()) else { return };
    let mut a = s.a.clone();
    a.crc = true;
    if a.has_duplicates() {
        return;
    }
    a.put_sources("");
    let (st, r) = build(ctx, &a, "", "/w/out.mpq", run::plan(1));
    if !ctx.must_finish("build", &st) || !matches!(r, Some(Ok(()))) {
        return;
    }
    let full = sim().fs.get("/w/out.mpq").unwrap_or_default();
    simos::phase(run::plan(1));
    let seed = ctx.seed();
    let st = ctx.single(move || {
        let Some(Ok(mut ar)) = guard(|| Archive::open("/w/out.mpq")) else { return };
        let Some(locs) = locate(&a, &ar, &full) else { return };
        let mut disk = full.clone();
        let mut hit = vec![false; locs.len()];
        for (f, g) in &s.d {
            let i = *f as usize % locs.len().max(1);
            let Some(l) = locs.get(i) else { return };
            hit[i] |= damage(&mut disk, l.lo, l.hi, g);
        }
        simos::without(|| sim().fs.put("/w/out.mpq", &disk));
        simos::phase(Plan { seed, rates: s.r.rates(), ..Default::default() });
        if !s.before {
            ar = match guard(|| Archive::open("/w/out.mpq")) {
                Some(Ok(x)) => x,
                Some(Err(e)) => return fail(&format!("open-error {}", kindof(&e)), format!("damage to file data only made the archive unopenable: {}", e)),
                None => return,
            };
        }
        for round in 0..2 {
            for (i, l) in locs.iter().enumerate() {
                let want = variants(&a, &l.name);
                let Some(r) = guard(|| ar.read_file(&l.name)) else { continue };
                let was = if l.multi { "multi-sector" } else { "single-unit" };
                match r {
                    Ok(d) => {
                        if !want.contains(&d) {
                            if hit[i] && collision(l, a.sector() as usize, &disk, &d) {
                                feat("checksum collision");
                            } else if hit[i] {
                                fail(&format!("damage-unnoticed {}", was), format!("{}: damaged file read without an error: {}", describe(&a, &l.name), diff(&want[0], &d)));
                            } else {
                                fail("other-file-wrong", format!("{}: wrong bytes although only other files were damaged", describe(&a, &l.name)));
                            }
                        } else if hit[i] && round == 0 {
                            feat("harmless damage");
                        }
                    }
                    Err(e) => {
                        if hit[i] {
                            feat(&format!("damage refused {} comp={} enc={} {}", was, if l.csize < l.size { 1 } else { 0 }, a.files.iter().find(|f| f.name == l.name).map(|f| a.encrypted(f)).unwrap_or(false), kindof(&e)));
                        } else {
                            fail(&format!("other-file-error {}", kindof(&e)), format!("{}: unreadable although only other files were damaged: {}", describe(&a, &l.name), e));
                        }
                    }
                }
            }
        }
    });
    ctx.must_finish("read", &st);
}
// ---- C09 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S09 {
    a: Arch,
    /// (what is damaged: 0 header, 1.. tables, 9 file data, 10 a whole header field, damage)
    d: Vec<(u8, Dmg)>,
    r: RateSpec,
    before: bool,
}
fn gen09(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 12, locales: false, big: false });
    a.ver = 4;
    if r.chance(1, 2) {
        a.ctab = true;
    }
    for f in &mut a.files {
        f.size = f.size.min(4000);
        if f.kind == 6 {
            f.kind = 2;
        }
    }
    scale(r, &mut a);
    let n = *r.pick(&[0u64, 1, 1, 1, 1, 1, 2]);
    let d = (0..n)
        .map(|_| {
            let mut g = dmg(r);
            g.kind = g.kind.min(4);
            (*r.pick(&[0u8, 0, 1, 2, 3, 4, 5, 9, 10, 10]), g)
        })
        .collect();
    let rates = match r.below(4) {
        0 | 1 => RateSpec::benign(r),
        2 => RateSpec { short: 50, eintr: 30, read_err: 60, meta_err: 30, ..Default::default() },
        _ => RateSpec::default(),
    };
    to_value(S09 { a, d, r: rates, before: r.chance(1, 4) }).unwrap()
}
const TABLES: [&str; 5] = ["hash table", "block table", "hi-block table", "HET table", "BET table"];
/// (start, end, offset of the stored digest in the header) of every table
fn digests(h: &[u8]) -> Vec<(usize, usize, usize)> {
    let hash = u32at(h, 16) as u64 | ((u64at(h, 40) & 0xffff) << 32);
    let block = u32at(h, 20) as u64 | ((u64at(h, 42) & 0xffff) << 32);
    let (hi, bet, het) = (u64at(h, 32), u64at(h, 52), u64at(h, 60));
    [(hash, u64at(h, 68), 128), (block, u64at(h, 76), 112), (hi, u64at(h, 84), 144), (het, u64at(h, 92), 176), (bet, u64at(h, 100), 160)].iter().map(|(p, s, m)| if *p == 0 { (0, 0, *m) } else { (*p as usize, (p + s) as usize, *m) }).collect()
}
fn run09(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S09>(v.clone()) else { return };
    let mut a = s.a.clone();
    a.ver = 4;
    if a.has_duplicates() {
        return;
    }
    a.put_sources("");
    let (st, r) = build(ctx, &a, "", "/w/out.mpq", run::plan(1));
    if !ctx.must_finish("build", &st) || !matches!(r, Some(Ok(()))) {
        return;
    }
    let full = sim().fs.get("/w/out.mpq").unwrap_or_default();
    let t = digests(&full);
    let first = t.iter().filter(|x| x.1 > x.0).map(|x| x.0).min().unwrap_or(full.len());
    // every byte behind the files belongs to a table with a digest
    let covered: usize = t.iter().map(|x| x.1 - x.0).sum();
    if first + covered != full.len() || u32at(&full, 12) & 0xffff != 3 {
        fail("table-without-digest", format!("tables occupy {}..{} but the digests cover {} bytes", first, full.len(), covered));
        return;
    }
    let mut disk = full.clone();
    for (w, g) in &s.d {
        match w {
            0 => {
                let mut g = g.clone();
                g.len = g.len.min(16);
                damage(&mut disk, 0, 208, &g);
                // another format version has no digests at all
                disk[12..14].copy_from_slice(&full[12..14]);
                disk[0..4].copy_from_slice(&full[0..4]);
            }
            10 => {
                const FIELDS: [(usize, usize); 26] = [(4, 4), (8, 4), (14, 2), (16, 4), (20, 4), (24, 4), (28, 4), (32, 8), (40, 2), (42, 2), (44, 8), (52, 8), (60, 8), (68, 8), (76, 8), (84, 8), (92, 8), (100, 8), (108, 4), (112, 16), (128, 16), (144, 16), (160, 16), (176, 16), (192, 16), (192, 16)];
                let (o, n) = FIELDS[frac(g.at, FIELDS.len())];
                let mut r = Rng::new(g.val as u64);
                let src = frac(g.val, 192);
                for i in 0..n {
                    disk[o + i] = match g.kind {
                        0 | 2 => 0,
                        1 => 0xff,
                        3 => r.u64() as u8,
                        _ => full[(src / 16 * 16 + i) % 208],
                    };
                }
                *sim().counts.entry("medium_damage".into()).or_insert(0) += 1;
            }
            1..=5 => {
                let x = t[*w as usize - 1];
                damage(&mut disk, x.0, x.1, g);
            }
            _ => {
                damage(&mut disk, 208, first, g);
            }
        }
    }
    let mut want: Vec<bool> = t.iter().map(|x| x.0 == x.1 || (disk[x.0..x.1] == full[x.0..x.1] && disk[x.2..x.2 + 16] == full[x.2..x.2 + 16])).collect();
    let head = disk[..208] == full[..208];
    let moved = disk[..112] != full[..112];
    want.push(head);
    let intact_files = disk[208..first] == full[208..first];
    let st = ctx.single(move || {
        let mut open = None;
        if s.before {
            open = guard(|| Archive::open("/w/out.mpq")).and_then(|r| r.ok());
        }
        simos::without(|| sim().fs.put("/w/out.mpq", &disk));
        let faulty = s.r.read_err > 0 || s.r.meta_err > 0;
        simos::phase(Plan { seed: 7, rates: s.r.rates(), ..Default::default() });
        limit_memory(256 << 20, 512 << 20);
        for round in 0..3 {
            if round == 2 {
                simos::phase(run::plan(1));
            }
            let faulty = faulty && round < 2;
            if open.is_none() || (!s.before && round == 2) {
                open = match guard(|| Archive::open("/w/out.mpq")) {
                    Some(Ok(x)) => Some(x),
                    Some(Err(e)) => {
                        feat(if faulty { "open refused under fault" } else { "damaged archive refused" });
                        if !faulty && want.iter().all(|x| *x) && intact_files {
                            fail(&format!("open-error {}", kindof(&e)), format!("undamaged archive refused: {}", e));
                        }
                        None
                    }
                    None => return,
                };
            }
            let Some(ar) = open.as_mut() else { continue };
            let Some(r) = guard(|| ar.get_info()) else { return };
            match r {
                Err(e) => {
                    feat(if faulty { "report refused under fault" } else { "report refused" });
                    if !faulty && want.iter().all(|x| *x) && intact_files {
                        fail(&format!("info-error {}", kindof(&e)), format!("no report for an undamaged archive: {}", e));
                    }
                }
                Ok(i) => {
                    let Some(m) = i.md5_status else {
                        return fail("no-digest-report", "a version-4 archive was reported without digests".into());
                    };
                    let got = [m.hash_table_valid, m.block_table_valid, m.hi_block_table_valid, m.het_table_valid, m.bet_table_valid, m.header_valid];
                    for k in 0..6 {
                        let n = if k == 5 { "header" } else { TABLES[k] };
                        if k == 5 && s.before {
                            // the digests of the header that was read are those from before the damage
                            if got[5] && disk[..192] != full[..192] {
                                fail("damage-unreported header", "damage to the header under an open archive is reported as valid".into());
                            }
                            continue;
                        }
                        let w = if s.before && k < 5 { disk[t[k].0..t[k].1] == full[t[k].0..t[k].1] } else { want[k] };
                        if got[k] && !w && !(k < 5 && moved && !s.before) {
                            fail(&format!("damage-unreported {}", n), format!("damage to the {} is reported as valid", n));
                        }
                        if !got[k] && w && (k == 5 || !moved || s.before) {
                            fail(&format!("false-damage {}", n), format!("the undamaged {} is reported as invalid{}", n, if faulty { " because of a read fault" } else { "" }));
                        }
                        if !w {
                            feat(&format!("damage reported: {}", n));
                        } else if want.iter().all(|x| *x) {
                            feat("intact archive reported valid");
                        }
                    }
                }
            }
        }
    });
    unlimit_memory();
    ctx.must_finish("report", &st);
}
// ---- C21 ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct S21 {
    a: Arch,
    /// 512-byte units of foreign data in front
    units: u32,
    fill: u8,
    fseed: u64,
    /// 0 none, otherwise the distance from the user-data header to the archive
    user: u32,
    /// bytes behind the archive
    tail: u32,
    /// an archive stored as plain file inside
    nested: bool,
    r: RateSpec,
    dead: u32,
    /// zero bytes (a hole in the file) right in front of the archive, after any user-data header
    #[serde(default)]
    gap: u64,
}
fn gen21(r: &mut Rng, i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 8, locales: false, big: true });
    for f in &mut a.files {
        f.size = f.size.min(30_000);
    }
    scale(r, &mut a);
    let mut user = match r.below(5) {
        0 => 512 * r.range(1, 5) as u32,
        1 => r.range(16, 3000) as u32,
        2 => *r.pick(&[16u32, 20, 511, 513, 1024]),
        _ => 0,
    };
    let mut rates = match r.below(5) {
        0 => RateSpec::default(),
        1 | 2 => RateSpec::benign(r),
        3 => RateSpec { read_err: 60, short: 100, ..Default::default() },
        _ => RateSpec { read_err: 200, meta_err: 50, ..Default::default() },
    };
    // far away: as far as a user-data header can point, or as long as a scan takes
    let mut dead = if r.chance(1, 10) { r.range(1, 40) as u32 } else { 0 };
    let gap = if i == 60 {
        (dead, rates) = (0, RateSpec::default());
        user = 0;
        (1u64 << 32) + 512 * r.below(3)
    } else if r.chance(1, 12) {
        if user > 0 {
            *r.pick(&[0x7fff_0000u64, 0x8000_0000, 0xffff_0000, 0xffff_ffff, 0x1_0000, 0x100_0000, 0x1234_5678]) - user as u64
        } else {
            512 * *r.pick(&[255u64, 256, 2047, 2048, 4096, 8191, 10_000])
        }
    } else {
        0
    };
    to_value(S21 { gap, a, units: *r.pick(&[0u32, 1, 1, 2, 3, 4, 7, 8, 16, 33, 64, 200]), fill: r.below(8) as u8, fseed: r.u64() >> 12, user, tail: *r.pick(&[0u32, 0, 0, 1, 3, 511, 512, 700, 5000]), nested: r.chance(1, 3), r: rates, dead }).unwrap()
}
fn run21(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S21>(v.clone()) else { return };
    let a = s.a.clone();
    if a.has_duplicates() {
        return;
    }
    let mut inner_bytes = None;
    if s.nested {
        let inner = Arch { ver: 1, block: 3, comp: 0, list: 1, crc: false, ctab: false, tcomp: 2, files: vec![FileSpec { name: "inner.txt".into(), size: 40, kind: 2, cseed: 1, comp: 0, enc: 0, locale: 0, path: false }] };
        let (st, r) = build(ctx, &inner, "", "/w/inner.mpq", run::plan(1));
        if st != simos::sched::Stop::Done || !matches!(r, Some(Ok(()))) {
            return;
        }
        inner_bytes = sim().fs.get("/w/inner.mpq");
    }
    a.put_sources("");
    // build the archive; the nested one is placed so that its header is 512-byte aligned
    simos::phase(run::plan(1));
    let out = cell();
    let (o, aa) = (out.clone(), a.clone());
    let nested = inner_bytes.clone();
    let st = ctx.single(move || {
        let mut b = aa.builder("");
        if let Some(n) = nested {
            for k in 0..4u8 {
                // whatever precedes it, one of the copies is aligned for some padding
                let mut d = vec![0u8; 128 * k as usize];
                while d.len() < 2048 {
                    d.extend_from_slice(&n);
                    let l = d.len().div_ceil(64) * 64;
                    d.resize(l, 0);
                }
                b = b.add_file_data_with_options(d, &format!("nested{}.mpq", k), 0, false, 0);
            }
        }
        set(&o, b.build("/w/plain.mpq").is_ok());
    });
    if !ctx.must_finish("build", &st) || take(&out) != Some(true) {
        return;
    }
    let plain = sim().fs.get("/w/plain.mpq").unwrap_or_default();
    // the foreign data must not start an archive itself
    let mut d = content(s.units.min(400) as u64 * 512, s.fill, s.fseed);
    for (i, c) in d.chunks_mut(512).enumerate() {
        if c.starts_with(b"MPQ\x1a") || (c.starts_with(b"MPQ\x1b") && i % 3 != 0) {
            c[0] = b'm';
        } else if c.starts_with(b"MPQ\x1b") {
            // a user-data signature that leads nowhere
            c[8..12].copy_from_slice(&0x7fff_0000u32.to_le_bytes());
        }
    }
    let mut gap = (s.gap / 512 * 512).min(5 << 30);
    if gap > 1 << 30 {
        crate::run::long_run();
        sim().op_limit = 100_000_000;
        ctx.point_limit = 100_000_000;
    }
    if s.user > 0 {
        let h = (s.user as usize).clamp(16, 20_000);
        let mut u = vec![];
        u.extend_from_slice(b"MPQ\x1b");
        let dist = (h as u64 + s.gap).min(u32::MAX as u64);
        gap = dist - h as u64;
        u.extend_from_slice(&((h - 16) as u32).to_le_bytes());
        u.extend_from_slice(&(dist as u32).to_le_bytes());
        u.extend_from_slice(&16u32.to_le_bytes());
        let mut ud = content((h - 16) as u64, 2, s.fseed);
        ud.iter_mut().for_each(|b| *b |= 0x20);
        u.extend_from_slice(&ud);
        d.extend_from_slice(&u);
    }
    let off = d.len() as u64 + gap;
    let mut back = plain.clone();
    back.extend(std::iter::repeat(b'x').take(s.tail as usize));
    sim().fs.put_sparse("/w/out.mpq", off + back.len() as u64, &[(0, d), (off, back)]);
    let seed = ctx.seed();
    simos::phase(run::plan(1));
    let user = s.user;
    let st = ctx.single(move || {
        let Some(Ok(mut p)) = guard(|| Archive::open("/w/plain.mpq")) else { return };
        let Some(Ok(list0)) = guard(|| p.list()) else { return };
        let Some(Ok(all0)) = guard(|| p.list_all()) else { return };
        let key = |l: &[mopaq::FileEntry]| l.iter().map(|e| (e.name.clone(), e.size, e.compressed_size, e.flags)).collect::<Vec<_>>();
        let names: Vec<String> = list0.iter().map(|e| e.name.clone()).collect();
        let body: Vec<Option<Vec<u8>>> = names.iter().map(|n| guard(|| p.read_file(n)).and_then(|r| r.ok())).collect();
        let mut plan = Plan { seed, rates: s.r.rates(), ..Default::default() };
        if s.dead > 0 {
            plan.dead_from = Some(s.dead as u64);
            plan.dead_reads = true;
            plan.dead_errno = libc::EIO;
        }
        simos::phase(plan);
        let mut open: Option<Archive> = None;
        for round in if user == 0 && gap > 1 << 30 { 2..3 } else { 0..3 } {
            if round == 2 {
                simos::phase(run::plan(1));
            }
            let faulty = round < 2 && (s.r.read_err > 0 || s.r.meta_err > 0 || s.dead > 0);
            if open.is_none() || round == 2 {
                open = match guard(|| Archive::open("/w/out.mpq")) {
                    Some(Ok(x)) => Some(x),
                    Some(Err(e)) => {
                        if !faulty {
                            fail(&format!("open-error {}", kindof(&e)), format!("archive at offset {} (user-data distance {}) cannot be opened: {}", off, user, e));
                        } else {
                            feat("open refused under fault");
                        }
                        None
                    }
                    None => return,
                };
            }
            let Some(ar) = open.as_mut() else { continue };
            if ar.archive_offset() != off {
                return fail("wrong-archive", format!("the archive is at offset {} but the one at {} was opened", off, ar.archive_offset()));
            }
            feat(&format!("offset {} user {} tail {} nested {} v{}", if off == 0 { "0" } else if off > 1 << 31 { "far" } else if off % 512 == 0 { "aligned" } else { "odd" }, user > 0, s.tail > 0, s.nested, a.ver));
            if (user > 0) != ar.user_data().is_some() {
                fail("user-data-lost", "presence of the user-data header is misreported".into());
            }
            for (w, want) in [(0, key(&list0)), (1, key(&all0))] {
                match guard(|| if w == 0 { ar.list() } else { ar.list_all() }) {
                    Some(Ok(l)) => {
                        let (mut got, mut want) = (key(&l), want);
                        if faulty && got.iter().all(|e| e.0.starts_with("file_")) {
                            // made-up names depend on which of the tables could be loaded
                            for x in [&mut got, &mut want] {
                                x.iter_mut().for_each(|e| e.0.clear());
                                x.sort();
                            }
                        }
                        if got != want {
                            fail("list-differs", format!("listing differs at offset {}: {} entries instead of {}", off, l.len(), want.len()));
                        }
                    }
                    Some(Err(e)) if !faulty => fail(&format!("list-error {}", kindof(&e)), format!("listing fails at offset {}: {}", off, e)),
                    _ => {}
                }
            }
            for (n, want) in names.iter().zip(&body) {
                match guard(|| ar.read_file(n)) {
                    Some(Ok(d)) => {
                        if want.as_ref().map(|w| *w != d).unwrap_or(false) {
                            fail("bytes-differ", format!("{} at offset {}: {}", describe(&a, n), off, diff(want.as_ref().unwrap(), &d)));
                        }
                    }
                    Some(Err(e)) if !faulty && want.is_some() => fail(&format!("read-error {}", kindof(&e)), format!("{} at offset {}: {}", describe(&a, n), off, e)),
                    _ => {}
                }
            }
            match guard(|| ar.get_info()) {
                Some(Ok(i)) => {
                    if let Some(m) = i.md5_status {
                        if !(m.header_valid && m.hash_table_valid && m.block_table_valid && m.het_table_valid && m.bet_table_valid && m.hi_block_table_valid) {
                            fail("digest-invalid", format!("digests of the archive at offset {} are reported invalid", off));
                        }
                    }
                    if i.archive_offset != off {
                        fail("info-offset", format!("reported offset {} instead of {}", i.archive_offset, off));
                    }
                }
                Some(Err(e)) if !faulty => fail(&format!("info-error {}", kindof(&e)), format!("at offset {}: {}", off, e)),
                _ => {}
            }
        }
    });
    ctx.must_finish("read", &st);
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C07", gen: gen07, run: run07, quick: 18000, rule: "every seed in the range was run; a run is one archive, one set of damage patterns, two rounds of reads", real: REAL_LIB, stub: STUB_LIB, assume: ASSUME },
        Prop { id: "C09", gen: gen09, run: run09, quick: 12000, rule: "every seed in the range was run; a run is one version-4 archive, one set of damage patterns and read faults, three reports", real: REAL_LIB, stub: STUB_LIB, assume: ASSUME },
        Prop { id: "C21", gen: gen21, run: run21, quick: 40000, rule: "every seed in the range was run; a run is one archive at one offset, read under faults and after them", real: REAL_LIB, stub: STUB_LIB, assume: ASSUME },
    ]
}
