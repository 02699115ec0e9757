//! C08: damaged, truncated and hostile archives.
use super::core::*;
use super::damage::{damage, dmg, Dmg};
use super::*;
use crate::run::{self, *};
use crate::work::*;
use mopaq::crypto::{decrypt_block, encrypt_block, hash_string, hash_type};
use mopaq::{Archive, OpenOptions};
use serde::{Deserialize, Serialize};
use serde_json::to_value;
use simos::{sim, Plan};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    /// anywhere in the file
    Raw(Dmg),
    /// in the first 208 bytes
    Head(Dmg),
    /// header field number, value
    Field(u8, u64),
    /// fraction kept
    Cut(u32),
    Grow(u32),
    /// (table: 0 hash, 1 block, entry, field, value)
    Entry(u8, u32, u8, u64),
    /// HET (0) or BET (1): 32-bit word at this position of the plain table, value
    Ext(u8, u32, u64),
    /// byte of a stored file: (file, position from its start, value)
    File(u32, u32, u8),
    /// word of a stored file
    Word(u32, u32, u64),
    /// in front: (distance to the archive, header offset claimed)
    User(u32, u64),
    /// the same 16 bytes over the whole hash or block table
    Flood(u8, u64),
    /// a word off by a little, or a little more or less than the one before it:
    /// (place: 0 header, 1 hash table, 2 block table, 3 HET, 4 BET, 5 stored file; which; word; difference; from the one before)
    Near(u8, u32, u32, i32, bool),
}
#[derive(Serialize, Deserialize)]
struct S08 {
    a: Arch,
    m: Vec<Mut>,
    r: RateSpec,
    calls: Vec<u8>,
}
fn val(r: &mut Rng, len: u64) -> u64 {
    match r.below(6) {
        0 => *r.pick(&[0u64, 1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1000]),
        1 => *r.pick(&[0x7fff, 0x8000, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0xffff_fff0, 0x1000_0000, 0x0fff_ffff, 0x2000_0000]),
        2 => 1u64 << r.below(64),
        3 => (1u64 << r.below(64)).wrapping_sub(1 + r.below(3)),
        4 => len.wrapping_add(r.below(40)).wrapping_sub(20),
        _ => { let x = r.u64(); *r.pick(&[u64::MAX, u64::MAX - 1, u64::MAX - 511, i64::MAX as u64, 1 << 32, (1 << 32) + 32, u32::MAX as u64 * 16, x]) }
    }
}
fn mutation(r: &mut Rng) -> Mut {
    let len = r.range(40, 20_000);
    match r.below(19) {
        0 => Mut::Raw(dmg(r)),
        1 => Mut::Head(dmg(r)),
        2..=4 => Mut::Field(r.below(24) as u8, val(r, len)),
        5 => Mut::Cut(r.u64() as u32),
        6 => Mut::Grow(r.range(1, 2000) as u32),
        7 | 8 => Mut::Entry(r.below(2) as u8, r.u64() as u32, r.below(5) as u8, val(r, len)),
        9..=11 => Mut::Ext(r.below(2) as u8, r.below(24) as u32, val(r, len)),
        12 => Mut::File(r.u64() as u32, if r.chance(2, 3) { 0 } else { r.below(64) as u32 }, r.u64() as u8),
        13 => Mut::Word(r.u64() as u32, r.below(8) as u32, val(r, len)),
        14 => Mut::User(*r.pick(&[16u32, 512, 100, 1024]), val(r, len)),
        15 => Mut::Flood(r.below(2) as u8, val(r, len)),
        _ => Mut::Near(*r.pick(&[0u8, 1, 2, 2, 3, 4, 5, 5, 5]), r.u64() as u32, *r.pick(&[0u32, 1, 1, 1, 2, 2, 3, 4, 5, 7, 11, 20]), *r.pick(&[-1i32, -1, 1, -2, 2, -4, 4, 0, 8, -8, 16, -16, 512, -512]), r.chance(1, 2)),
    }
}
fn gen08(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 8, locales: false, big: false });
    for f in &mut a.files {
        f.size = f.size.min(9000);
    }
    if r.chance(1, 4) {
        let n = *r.pick(&["(attributes)", "(attributes)", "(signature)", "(listfile)"]);
        if n == "(listfile)" {
            a.list = 0;
        }
        // garbage in the place of the special files
        a.files.push(FileSpec { name: n.into(), size: *r.pick(&[0u64, 1, 3, 4, 5, 7, 8, 9, 71, 72, 73, 100, 1000]), kind: *r.pick(&[0u8, 1, 8, 8, 9, 9]), cseed: r.u64() >> 12, comp: comp(r), enc: r.below(3) as u8, locale: 0, path: false });
    }
    // plain tables are easier to aim at
    if r.chance(2, 3) {
        a.ctab = false;
    }
    let n = *r.pick(&[0u64, 1, 1, 1, 2, 2, 3, 4, 6]);
    let m = (0..n).map(|_| mutation(r)).collect();
    to_value(S08 { a, m, r: RateSpec::benign(r), calls: (0..r.range(3, 12)).map(|_| r.below(12) as u8).collect() }).unwrap()
}
fn words(d: &[u8]) -> Vec<u32> {
    d.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()
}
fn put(d: &mut [u8], w: &[u32]) {
    for (c, x) in d.chunks_exact_mut(4).zip(w) {
        c.copy_from_slice(&x.to_le_bytes());
    }
}
pub fn crypt(d: &mut [u8], name: &str, f: impl FnOnce(&mut Vec<u32>)) {
    let key = hash_string(name, hash_type::FILE_KEY);
    let mut w = words(d);
    decrypt_block(&mut w, key);
    f(&mut w);
    encrypt_block(&mut w, key);
    put(d, &w);
}
pub fn rd32(d: &[u8], p: usize) -> usize {
    d.get(p..p + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()) as usize).unwrap_or(0)
}
fn rd64(d: &[u8], p: usize) -> usize {
    d.get(p..p + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap()) as usize).unwrap_or(0)
}
/// (offset, width) of the header fields
const FIELDS: [(usize, usize); 24] = [(4, 4), (8, 4), (12, 2), (14, 2), (14, 2), (16, 4), (20, 4), (24, 4), (24, 4), (28, 4), (28, 4), (32, 8), (40, 2), (42, 2), (44, 8), (52, 8), (60, 8), (68, 8), (76, 8), (84, 8), (92, 8), (100, 8), (108, 4), (0, 4)];
fn apply(d: &mut Vec<u8>, orig: &[u8], pos: &[usize], m: &Mut) {
    let ver = rd32(orig, 12) & 0xffff;
    match m {
        Mut::Raw(g) => {
            let n = d.len();
            damage(d, 0, n, g);
        }
        Mut::Head(g) => {
            let n = d.len().min(208);
            damage(d, 0, n, g);
        }
        Mut::Field(f, v) => {
            let (o, w) = FIELDS[*f as usize % 24];
            if o + w <= d.len() {
                d[o..o + w].copy_from_slice(&v.to_le_bytes()[..w]);
            }
        }
        Mut::Cut(f) => {
            let n = (*f as u64 * d.len() as u64 >> 32) as usize;
            d.truncate(n);
        }
        Mut::Grow(n) => {
            let l = d.len() + (*n).min(1 << 16) as usize;
            d.resize(l, 0xcc);
        }
        Mut::Entry(t, e, f, v) => {
            let (p, n, name) = if *t == 0 { (rd32(orig, 16), rd32(orig, 24), "(hash table)") } else { (rd32(orig, 20), rd32(orig, 28), "(block table)") };
            if n == 0 || p + 16 * n > d.len() {
                return;
            }
            let mut v = *v as u32;
            crypt(&mut d[p..p + 16 * n], name, |w| {
                let i = (*e as usize % n) * 4;
                if *f == 4 {
                    if *t == 0 {
                        w[i + 3] = v % 8;
                    } else {
                        // combinations of the flags
                        v = [0x8000_0200u32, 0x8100_0200, 0x8000_0100, 0x8401_0200, 0x8501_0200, 0x8003_0200, 0x8000_0000, 0x0000_0200, 0x8400_0000, 0x8501_0000][v as usize % 10];
                        w[i + 3] = v;
                    }
                } else {
                    w[i + *f as usize] = v;
                }
            });
        }
        Mut::Ext(t, i, v) => {
            if ver < 2 {
                return;
            }
            let p = if *t == 0 { rd64(orig, 60) } else { rd64(orig, 52) };
            let next = if *t == 0 { rd64(orig, 52) } else { rd32(orig, 16) };
            if p == 0 || next <= p + 12 || next > d.len() {
                return;
            }
            let name = if *t == 0 { "(hash table)" } else { "(block table)" };
            let i = *i as usize;
            if i < 3 {
                d[p + 4 * i..p + 4 * i + 4].copy_from_slice(&(*v as u32).to_le_bytes());
            } else {
                crypt(&mut d[p + 12..next], name, |w| {
                    if let Some(x) = w.get_mut(i - 3) {
                        *x = *v as u32
                    }
                });
            }
        }
        Mut::File(f, o, v) => {
            if let Some(p) = pos.get(*f as usize % pos.len().max(1)) {
                if let Some(b) = d.get_mut(p + *o as usize) {
                    *b = *v
                }
            }
        }
        Mut::Word(f, o, v) => {
            if let Some(p) = pos.get(*f as usize % pos.len().max(1)) {
                let q = p + 4 * *o as usize;
                if q + 4 <= d.len() {
                    d[q..q + 4].copy_from_slice(&(*v as u32).to_le_bytes());
                }
            }
        }
        Mut::User(n, h) => {
            let n = (*n as usize).clamp(16, 4096);
            let mut u = b"MPQ\x1b".to_vec();
            u.extend_from_slice(&(*h as u32 ^ 5).to_le_bytes());
            u.extend_from_slice(&(if *h & 1 == 0 { n as u32 } else { *h as u32 }).to_le_bytes());
            u.extend_from_slice(&16u32.to_le_bytes());
            u.resize(n, 0);
            u.extend_from_slice(d);
            *d = u;
        }
        Mut::Near(place, which, i, by, before) => {
            let i = *i as usize;
            let change = |w: &mut [u32]| {
                if i < w.len() {
                    let base = if *before && i > 0 { w[i - 1] } else { w[i] };
                    w[i] = base.wrapping_add(*by as u32);
                }
            };
            let file = pos.get(*which as usize % pos.len().max(1)).copied().unwrap_or(0);
            let (lo, hi, key) = match place {
                0 => (0, 208, ""),
                1 => (rd32(orig, 16), rd32(orig, 16) + 16 * rd32(orig, 24), "(hash table)"),
                2 => (rd32(orig, 20), rd32(orig, 20) + 16 * rd32(orig, 28), "(block table)"),
                3 if ver >= 2 => (rd64(orig, 60) + 12, rd64(orig, 52), "(hash table)"),
                4 if ver >= 2 => (rd64(orig, 52) + 12, rd32(orig, 16), "(block table)"),
                5 => (file, file + 200, ""),
                _ => return,
            };
            let hi = hi.min(d.len());
            if lo >= hi {
                return;
            }
            let entry = |w: &mut Vec<u32>| {
                // one entry of the table
                let e = if matches!(place, 1 | 2) { (*which as usize % (w.len() / 4).max(1)) * 4 } else { 0 };
                if e < w.len() {
                    change(&mut w[e..]);
                }
            };
            if key.is_empty() {
                let mut w = words(&d[lo..hi]);
                entry(&mut w);
                put(&mut d[lo..hi], &w);
            } else {
                crypt(&mut d[lo..hi], key, entry);
            }
        }
        Mut::Flood(t, v) => {
            let (p, n, name) = if *t == 0 { (rd32(orig, 16), rd32(orig, 24), "(hash table)") } else { (rd32(orig, 20), rd32(orig, 28), "(block table)") };
            if n == 0 || p + 16 * n > d.len() {
                return;
            }
            crypt(&mut d[p..p + 16 * n], name, |w| {
                let e: Vec<u32> = w[..4].to_vec();
                for (i, x) in w.iter_mut().enumerate() {
                    *x = if i % 4 == 3 { *v as u32 } else { e[i % 4] };
                }
            });
        }
    }
}
fn run08(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S08>(v.clone()) else { return };
    let a = s.a.clone();
    if a.has_duplicates() {
        return;
    }
    a.put_sources("");
    let (st, r) = build(ctx, &a, "", "/w/out.mpq", run::plan(1));
    if !ctx.must_finish("build", &st) || !matches!(r, Some(Ok(()))) {
        return;
    }
    let orig = sim().fs.get("/w/out.mpq").unwrap_or_default();
    // where the files start, from the block table
    let (bp, bn) = (rd32(&orig, 20), rd32(&orig, 28));
    let mut pos = vec![];
    if bn > 0 && bp + 16 * bn <= orig.len() {
        let mut w = words(&orig[bp..bp + 16 * bn]);
        decrypt_block(&mut w, hash_string("(block table)", hash_type::FILE_KEY));
        pos = w.chunks(4).map(|c| c[0] as usize).collect();
    }
    let mut d = orig.clone();
    for m in &s.m {
        apply(&mut d, &orig, &pos, m);
        feat(&format!("{:?}", m).split('(').next().unwrap_or("").to_string());
        *sim().counts.entry("medium_damage".into()).or_insert(0) += 1;
    }
    sim().fs.put("/w/out.mpq", &d);
    let limit = (64 << 20) + 4096 * d.len();
    limit_memory(limit, 2 * limit);
    simos::phase(Plan { seed: ctx.seed(), rates: s.r.rates(), ..Default::default() });
    let calls = s.calls.clone();
    let st = ctx.single(move || {
        let mut names: Vec<String> = a.files.iter().map(|f| f.name.clone()).collect();
        names.extend(["(listfile)", "(attributes)", "(signature)", "absent"].map(String::from));
        let mut open: Option<Archive> = None;
        match guard(|| Archive::open("/w/out.mpq")) {
            Some(Ok(x)) => {
                feat("opened");
                open = Some(x)
            }
            Some(Err(e)) => feat(&format!("open {}", kindof(&e))),
            None => {}
        }
        let mut rerun = vec![5u8, 0, 1, 2, 3, 4, 6, 7, 8];
        rerun.extend(&calls);
        for c in rerun {
            if c == 9 {
                // tables on demand
                open = guard(|| OpenOptions::new().load_tables(false).open("/w/out.mpq")).and_then(|r| r.ok());
                continue;
            }
            let Some(ar) = open.as_mut() else { continue };
            match c {
                0 => {
                    if let Some(Ok(l)) = guard(|| ar.list()) {
                        feat("listed");
                        for e in l.iter().take(30) {
                            if guard(|| ar.read_file(&e.name)).is_none() {
                                return;
                            }
                        }
                    }
                }
                1 => {
                    guard(|| ar.list_all());
                }
                2 => {
                    guard(|| ar.list_with_hashes());
                }
                3 => {
                    guard(|| ar.list_all_with_hashes());
                }
                4 => {
                    guard(|| ar.verify_signature());
                }
                5 => {
                    for n in &names {
                        guard(|| ar.find_file(n));
                        match guard(|| ar.read_file(n)) {
                            Some(Ok(_)) => feat("read"),
                            Some(Err(e)) => feat(&format!("read {}", kindof(&e))),
                            None => return,
                        }
                    }
                }
                6 => {
                    guard(|| ar.get_info());
                }
                7 => {
                    guard(|| ar.load_attributes());
                    guard(|| ar.get_file_attributes(3).is_some());
                }
                8 => {
                    if let Some(h) = ar.hash_table() {
                        for l in [0u16, 0x409] {
                            guard(|| h.find_file("absent", l).is_some());
                        }
                    }
                    if let Some(h) = ar.het_table() {
                        guard(|| h.find_file("absent").is_some());
                    }
                    if let Some(b) = ar.bet_table() {
                        for i in [0u32, 1, 2, u32::MAX] {
                            guard(|| b.get_file_info(i).is_some());
                        }
                    }
                }
                10 => {
                    guard(|| ar.load_tables());
                }
                _ => {
                    guard(|| (ar.header().sector_size(), ar.header().get_archive_size(), ar.user_data().is_some()));
                }
            }
        }
    });
    unlimit_memory();
    ctx.must_finish("call", &st);
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C08", gen: gen08, run: run08, quick: 20000, rule: "a random archive suffers structure-aware damage (header fields, decrypted table entries, extended tables, sector offsets, method bytes, truncation, special files), then every call is made on it; non-trivial: at least one damage or call outcome recorded", real: REAL_LIB, stub: STUB_LIB, assume: ASSUME }]
}
