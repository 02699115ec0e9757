//! C24: the attributes stored in an archive are reported for the files they were stored for.
use super::core::*;
use super::*;
use crate::run::{self, *};
use crate::work::*;
use mopaq::{Archive, OpenOptions};
use serde::{Deserialize, Serialize};
use serde_json::to_value;
use simos::prng::mix;
use simos::{sim, Plan};
use std::collections::BTreeMap;

/// the archive format's cipher and name hash, written from the format description
pub struct Crypt([u32; 0x500]);
impl Crypt {
    pub fn new() -> Crypt {
        let mut t = [0u32; 0x500];
        let mut seed = 0x0010_0001u32;
        for i in 0..0x100 {
            for j in 0..5 {
                seed = (seed * 125 + 3) % 0x2A_AAAB;
                let hi = (seed & 0xffff) << 16;
                seed = (seed * 125 + 3) % 0x2A_AAAB;
                t[i + j * 0x100] = hi | seed & 0xffff;
            }
        }
        Crypt(t)
    }
    pub fn hash(&self, name: &[u8], kind: u32) -> u32 {
        let (mut a, mut b) = (0x7FED_7FEDu32, 0xEEEE_EEEEu32);
        for c in name {
            let c = if *c == b'/' { b'\\' } else { c.to_ascii_uppercase() } as u32;
            a = self.0[(kind * 0x100 + c) as usize] ^ a.wrapping_add(b);
            b = c.wrapping_add(a).wrapping_add(b).wrapping_add(b << 5).wrapping_add(3);
        }
        a
    }
    pub fn encrypt(&self, d: &mut [u32], mut key: u32) {
        let mut s = 0xEEEE_EEEEu32;
        for v in d {
            s = s.wrapping_add(self.0[(0x400 + (key & 0xff)) as usize]);
            let plain = *v;
            *v ^= key.wrapping_add(s);
            key = ((!key << 21).wrapping_add(0x1111_1111)) | key >> 11;
            s = plain.wrapping_add(s).wrapping_add(s << 5).wrapping_add(3);
        }
    }
    pub fn decrypt(&self, d: &mut [u32], mut key: u32) {
        let mut s = 0xEEEE_EEEEu32;
        for v in d {
            s = s.wrapping_add(self.0[(0x400 + (key & 0xff)) as usize]);
            *v ^= key.wrapping_add(s);
            key = ((!key << 21).wrapping_add(0x1111_1111)) | key >> 11;
            s = v.wrapping_add(s).wrapping_add(s << 5).wrapping_add(3);
        }
    }
}
fn u32at(f: &[u8], p: usize) -> Option<u32> {
    Some(u32::from_le_bytes(f.get(p..p + 4)?.try_into().ok()?))
}
/// number of blocks and the block of every name, from the hash table of an archive at the start of the file
fn blocks(f: &[u8], names: &[String]) -> Option<(usize, BTreeMap<String, usize>)> {
    let c = Crypt::new();
    let ver = u16::from_le_bytes(f.get(12..14)?.try_into().ok()?);
    let mut pos = u32at(f, 0x10)? as usize;
    if ver >= 1 {
        pos |= (u16::from_le_bytes(f.get(0x28..0x2a)?.try_into().ok()?) as usize) << 32;
    }
    let n = u32at(f, 0x18)? as usize;
    let mut t: Vec<u32> = (0..n * 4).map(|i| u32at(f, pos + 4 * i)).collect::<Option<_>>()?;
    c.decrypt(&mut t, c.hash(b"(hash table)", 3));
    let mut m = BTreeMap::new();
    for name in names {
        let (a, b) = (c.hash(name.as_bytes(), 1), c.hash(name.as_bytes(), 2));
        let mut i = c.hash(name.as_bytes(), 0) as usize & (n - 1);
        for _ in 0..n {
            let e = &t[i * 4..i * 4 + 4];
            if e[3] == u32::MAX {
                break;
            }
            if e[0] == a && e[1] == b && e[3] != u32::MAX - 1 {
                m.insert(name.clone(), e[3] as usize);
                break;
            }
            i = (i + 1) & (n - 1);
        }
    }
    Some((u32at(f, 0x1c)? as usize, m))
}
#[derive(Clone, Serialize, Deserialize)]
struct S24 {
    a: Arch,
    /// an (attributes) file, and which kinds it holds
    has: bool,
    flags: u32,
    comp: u8,
    enc: bool,
    /// bytes after the last array
    tail: u8,
    /// written with the library's own serialiser
    own: bool,
    defer: bool,
    w: RateSpec,
    steps: Vec<(u8, u32)>,
    /// written by another implementation, in its layout
    #[serde(default)]
    other: Option<foreign::S25>,
}
fn gen24(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 12, locales: false, big: false });
    scale(r, &mut a);
    for f in &mut a.files {
        f.path = false;
        f.size = f.size.min(3000);
    }
    let w = match r.below(4) {
        0 => RateSpec::default(),
        1 => RateSpec::benign(r),
        2 => RateSpec { read_err: *r.pick(&[20u32, 150, 300]), ..Default::default() },
        _ => RateSpec { short: 200, eintr: 100, read_err: 60, ..Default::default() },
    };
    let other = if r.chance(1, 3) {
        serde_json::from_value::<foreign::S25>(foreign::gen25(r, 0, "")).ok()
    } else {
        None
    };
    to_value(S24 {
        other,
        a,
        has: r.chance(7, 8),
        flags: if r.chance(1, 3) { 15 } else { r.below(16) as u32 },
        comp: *r.pick(&[0u8, 0, 2, 2, 0x10, 0x12]),
        enc: r.chance(1, 3),
        tail: if r.chance(1, 4) { r.below(40) as u8 } else { 0 },
        own: r.chance(1, 2),
        defer: r.chance(1, 3),
        w,
        steps: (0..r.range(2, 12)).map(|_| (*r.pick(&[0u8, 0, 0, 1, 2, 3, 4]), r.u64() as u32)).collect(),
    })
    .unwrap()
}
type At = (u32, u64, [u8; 16], bool);
fn value(seed: u64, i: usize) -> At {
    let x = mix(seed, i as u64);
    let md = std::array::from_fn(|k| mix(x, k as u64) as u8);
    match x % 7 {
        0 => (0, 0, [0; 16], false),
        1 => (u32::MAX, u64::MAX, [255; 16], true),
        _ => ((x >> 8) as u32, mix(x, 99), md, x >> 5 & 1 == 1),
    }
}
pub fn encode(n: usize, flags: u32, seed: u64, tail: u8, own: bool) -> Vec<u8> {
    use mopaq::special_files::{AttributeFlags, Attributes, FileAttributes};
    let vals: Vec<At> = (0..n).map(|i| value(seed, i)).collect();
    let mut v = if own {
        let fa = vals.iter().map(|x| FileAttributes { crc32: Some(x.0), filetime: Some(x.1), md5: Some(x.2), is_patch: Some(x.3) }).collect();
        Attributes { version: 100, flags: AttributeFlags::new(flags), file_attributes: fa }.to_bytes().unwrap_or_default()
    } else {
        let mut v = 100u32.to_le_bytes().to_vec();
        v.extend_from_slice(&flags.to_le_bytes());
        if flags & 1 != 0 {
            vals.iter().for_each(|x| v.extend_from_slice(&x.0.to_le_bytes()));
        }
        if flags & 2 != 0 {
            vals.iter().for_each(|x| v.extend_from_slice(&x.1.to_le_bytes()));
        }
        if flags & 4 != 0 {
            vals.iter().for_each(|x| v.extend_from_slice(&x.2));
        }
        if flags & 8 != 0 {
            let mut b = vec![0u8; n.div_ceil(8)];
            for (i, x) in vals.iter().enumerate() {
                b[i / 8] |= (x.3 as u8) << (i % 8);
            }
            v.extend_from_slice(&b);
        }
        v
    };
    v.extend((0..tail).map(|i| i.wrapping_mul(37)));
    v
}
/// everything the archive says about its files' attributes against what was stored
fn compare(ar: &Archive, s: &S24, at: &BTreeMap<String, usize>, n: usize, seed: u64, loaded: bool) {
    match ar.attributes() {
        None => {
            if s.has && loaded {
                return fail("attributes-missing", format!("the attributes of {} blocks are stored but none are reported (v{})", n, s.a.ver));
            }
        }
        Some(x) => {
            if !s.has {
                return fail("attributes-invented", format!("attributes of {} blocks reported without any stored", x.file_attributes.len()));
            }
            if x.version != 100 || x.flags.as_u32() != s.flags || x.file_attributes.len() != n {
                return fail("attributes-header", format!("version {} flags {:#x} for {} blocks reported; stored 100, {:#x}, {}", x.version, x.flags.as_u32(), x.file_attributes.len(), s.flags, n));
            }
        }
    }
    if ar.attributes().is_none() {
        return;
    }
    feat("attributes compared");
    for (name, i) in at {
        let b = match guard(|| ar.find_file(name)) {
            Some(Ok(Some(f))) => f.block_index,
            Some(Ok(None)) => return fail("false-not-found", format!("{:?} is in the archive but lookup reports not found", name)),
            Some(Err(_)) => {
                feat("lookup refused");
                continue;
            }
            None => return,
        };
        let Some(Some(g)) = guard(|| ar.get_file_attributes(b).cloned()) else {
            if !failed() {
                fail("attributes-missing", format!("no attributes for {:?} (block {} of {}, v{})", name, b, n, s.a.ver));
            }
            return;
        };
        let w = value(seed, *i);
        let w = (
            if s.flags & 1 != 0 { Some(w.0) } else { None },
            if s.flags & 2 != 0 { Some(w.1) } else { None },
            if s.flags & 4 != 0 { Some(w.2) } else { None },
            if s.flags & 8 != 0 { Some(w.3) } else { None },
        );
        if (g.crc32, g.filetime, g.md5, g.is_patch) != w {
            return fail("attributes-wrong", format!("attributes of {:?} (block {} of {}, v{}, kinds {:#x}) are {:x?}, stored were {:x?}", name, i, n, s.a.ver, s.flags, g, w));
        }
    }
    if guard(|| ar.get_file_attributes(n).is_some()) == Some(true) {
        fail("attributes-invented", format!("attributes for block {} of {}", n, n));
    }
}
fn run24(ctx: &mut Ctx, v: &Value) {
    let Ok(mut s) = serde_json::from_value::<S24>(v.clone()) else { return };
    s.flags &= 15;
    if s.a.has_duplicates() {
        return;
    }
    let mut seed = ctx.seed();
    if let Some(mut o) = s.other.clone() {
        o.attr = s.has.then_some((s.flags, s.tail, s.comp, s.steps.len() as u8));
        o.plain();
        seed = o.seed();
        let Some(m) = simos::without(|| foreign::make(&o)) else { return };
        s.a.ver = o.version();
        sim().fs.put_sparse("/w/out.mpq", m.len, &m.parts);
        feat("another writer");
        let names = m.at.keys().cloned().collect();
        return reads(ctx, s, m.at, m.all, seed, names);
    }
    let mut names: Vec<String> = s.a.files.iter().map(|f| f.name.clone()).collect();
    if s.a.list != 0 {
        names.push("(listfile)".into());
    }
    let total = names.len() + s.has as usize;
    if s.has {
        names.push("(attributes)".into());
    }
    let (s2, ok) = (s.clone(), cell());
    let ok2 = ok.clone();
    simos::phase(run::plan(1));
    let st = ctx.single(move || {
        let mut b = s2.a.builder("");
        if s2.has {
            let data = encode(total, s2.flags, seed, s2.tail, s2.own);
            b = b.add_file_data_with_options(data, "(attributes)", s2.comp, s2.enc, 0);
        }
        if let Some(Ok(())) = guard(|| b.build("/w/out.mpq")) {
            set(&ok2, ())
        }
    });
    if !ctx.must_finish("build", &st) || take(&ok).is_none() {
        return;
    }
    let full = sim().fs.get("/w/out.mpq").unwrap_or_default();
    let Some((n, at)) = blocks(&full, &names) else { return };
    if n != total || at.len() != names.len() {
        return ctx_fail(format!("{} files were added, the tables hold {} blocks and find {} of them", total, n, at.len()));
    }
    reads(ctx, s, at, n, seed, names)
}
fn reads(ctx: &mut Ctx, s: S24, at: BTreeMap<String, usize>, n: usize, seed: u64, names: Vec<String>) {
    let plan = Plan { seed: seed ^ 5, rates: s.w.rates(), ..Default::default() };
    simos::phase(run::plan(1));
    let st = ctx.single(move || {
        let opener = || if s.defer { OpenOptions::new().load_tables(false).open("/w/out.mpq") } else { Archive::open("/w/out.mpq") };
        let mut open: Option<(Archive, bool)> = None;
        simos::phase(plan);
        for (k, x) in &s.steps {
            if open.is_none() {
                match guard(opener) {
                    Some(Ok(a)) => open = Some((a, !s.defer)),
                    Some(Err(_)) => {
                        feat("open refused");
                        continue;
                    }
                    None => return,
                }
            }
            let Some((ar, loaded)) = open.as_mut() else { continue };
            match k {
                0 => compare(ar, &s, &at, n, seed, *loaded),
                1 | 2 => {
                    let r = if *k == 1 { guard(|| ar.load_tables()) } else { guard(|| ar.load_attributes()) };
                    match r {
                        Some(Ok(())) => {
                            feat("loaded");
                            *loaded = true
                        }
                        Some(Err(_)) => feat("loading refused"),
                        None => return,
                    }
                }
                3 => {
                    let f = names.get(*x as usize % names.len().max(1)).cloned().unwrap_or_default();
                    if guard(|| ar.read_file(&f)).is_none() {
                        return;
                    }
                }
                _ => open = None,
            }
            if failed() {
                return;
            }
        }
        simos::phase(run::plan(seed));
        if let Some((mut ar, _)) = open.take() {
            match guard(|| ar.load_tables()) {
                Some(Ok(())) => compare(&ar, &s, &at, n, seed, true),
                Some(Err(e)) => return fail("load-error", format!("tables cannot be loaded after the faults: {}", e)),
                None => return,
            }
        }
        match guard(|| Archive::open("/w/out.mpq")) {
            Some(Ok(ar)) => compare(&ar, &s, &at, n, seed, true),
            Some(Err(e)) => fail("open-error", format!("an archive with attributes (kinds {:#x}, {} blocks, comp {:#x}, v{}) cannot be opened: {}", s.flags, n, s.comp, s.a.ver, e)),
            None => {}
        }
    });
    ctx.must_finish("reads", &st);
}
fn ctx_fail(m: String) {
    fail("block-count", m)
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C24", gen: gen24, run: run24, quick: 25000, rule: "archives with an (attributes) file of random kinds, values, compression and encryption are opened (at once or with deferred tables) and compared while reads fail, and again after; non-trivial: attributes were compared or loading was refused", real: REAL_LIB, stub: STUB_LIB, assume: ASSUME }]
}
