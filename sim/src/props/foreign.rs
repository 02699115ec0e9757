//! C25: archives are exchanged with other implementations of the format.
//!
//! One half of the runs writes an archive with a writer of its own (layouts the library's builder never
//! produces) and reads it through the library; the other half builds with the library and reads with a
//! reader of its own. Both follow the format description, not the library. Files are not encrypted.
use super::attr::Crypt;
use super::core::*;
use super::*;
use crate::run::{self, *};
use crate::work::*;
use md5::{Digest, Md5};
use mopaq::{Archive, Error};
use serde::{Deserialize, Serialize};
use serde_json::to_value;
use simos::{sim, Plan};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};

const EXISTS: u32 = 0x8000_0000;
const CRC: u32 = 0x0400_0000;
const SINGLE: u32 = 0x0100_0000;
const COMPRESS: u32 = 0x200;
const IMPLODE: u32 = 0x100;
const ENCRYPTED: u32 = 0x1_0000;

fn adler(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in d {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}
fn zlib(d: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(6));
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
fn bz(d: &[u8]) -> Vec<u8> {
    let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::best());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
fn pk(d: &[u8]) -> Option<Vec<u8>> {
    let c = pklib::implode_bytes(d, pklib::CompressionMode::Binary, pklib::DictionarySize::Size4K).ok()?;
    (pklib::explode_bytes(&c).ok()? == d).then_some(c)
}
#[derive(Clone, Serialize, Deserialize)]
struct FF {
    name: String,
    size: u32,
    kind: u8,
    cseed: u64,
    /// 0 sectors as they are, 1 compressed sectors, 2 one piece as it is, 3 one piece compressed, 4 imploded sectors, 5 one piece imploded
    how: u8,
    /// per sector: 0 zlib, 1 bzip2, 2 as it is, 3 pkware, 4 method 0
    method: u8,
    crc: bool,
    /// further versions in other languages
    loc: u8,
}
impl FF {
    fn data(&self, l: u8) -> Vec<u8> {
        content(self.size.min(200_000) as u64 + if l > 0 && self.size > 0 { 3 * l as u64 } else { 0 }, self.kind, self.cseed ^ l as u64)
    }
}
#[derive(Clone, Serialize, Deserialize)]
pub struct S25 {
    ver: u8,
    block: u8,
    files: Vec<FF>,
    /// names that were deleted
    gone: Vec<String>,
    /// blocks no name refers to
    unused: u8,
    /// spare room in the hash table: 0 as small as possible, 9 filled up with deleted entries
    room: u8,
    /// 0 no list, 1 lines, 2 with carriage returns, comments and stale names
    list: u8,
    /// seed of the layout and how far things lie apart
    lay: u64,
    far: u8,
    prefix: u8,
    user: u16,
    tail: u8,
    w: RateSpec,
    /// the other way round: built by the library
    #[serde(default)]
    built: Option<Arch>,
    /// deleted files whose name still refers to their block
    #[serde(default)]
    dead: u8,
    /// an (attributes) file: kinds, bytes behind it, how and with which method it is stored
    #[serde(default)]
    pub attr: Option<(u32, u8, u8, u8)>,
}
pub fn gen25(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let built = if r.chance(1, 3) {
        let mut a = arch(r, &ArchOpts { max_files: 10, locales: true, big: true });
        scale(r, &mut a);
        for f in &mut a.files {
            f.enc = 0;
            f.size = f.size.min(100_000);
        }
        Some(a)
    } else {
        None
    };
    let n = if r.chance(1, 25) { r.range(30, 300) } else { r.below(9) };
    let block = r.below(7) as u8;
    let sector = 512u64 << block;
    let mut names = names(r, n as usize);
    if r.chance(1, 4) && !names.is_empty() {
        // several names for the same start of the search
        for k in 0..names.len().min(6) {
            names.push(format!("chain{}.x", k));
        }
    }
    let files = names
        .into_iter()
        .map(|name| FF {
            name,
            size: match r.below(6) {
                0 => 0,
                1 => r.range(1, 40),
                2 => sector * r.range(1, 4) + r.below(3) - 1,
                3 => sector,
                _ => r.below(sector * 5 + 1),
            }
            .min(if n > 20 { 2000 } else { 150_000 }) as u32,
            kind: r.below(6) as u8,
            cseed: r.u64() >> 12,
            how: r.below(6) as u8,
            method: r.below(6) as u8,
            crc: r.chance(1, 4),
            loc: if r.chance(1, 8) { r.range(1, 3) as u8 } else { 0 },
        })
        .collect();
    let w = match r.below(4) {
        0 => RateSpec::default(),
        1 => RateSpec::benign(r),
        2 => RateSpec { read_err: *r.pick(&[20u32, 150, 300]), ..Default::default() },
        _ => RateSpec { short: 200, eintr: 100, read_err: 60, ..Default::default() },
    };
    to_value(S25 {
        ver: r.range(1, 4) as u8,
        block,
        files,
        gone: (0..if r.chance(1, 2) { r.range(1, 5) } else { 0 }).map(|i| format!("deleted\\{}{}.txt", i, r.below(1000))).collect(),
        unused: if r.chance(1, 3) { r.range(1, 5) as u8 } else { 0 },
        room: if r.chance(1, 150) { 5 } else { *r.pick(&[0u8, 0, 1, 2, 4, 9]) },
        list: r.below(3) as u8,
        lay: r.u64() >> 12,
        far: if r.chance(1, 12) { 4 } else { r.below(4) as u8 },
        prefix: if r.chance(1, 3) { r.range(1, 9) as u8 } else { 0 },
        user: if r.chance(1, 6) { r.range(16, 1500) as u16 } else { 0 },
        tail: if r.chance(1, 4) { r.range(1, 100) as u8 } else { 0 },
        w,
        built,
        dead: if r.chance(1, 4) { r.range(1, 3) as u8 } else { 0 },
        attr: None,
    })
    .unwrap()
}
/// how a piece of data is stored: compressed if that is shorter, with the method in front
fn piece(d: &[u8], how: u8, method: u8) -> Vec<u8> {
    let mut c = match (how, method) {
        (4 | 5, _) => match pk(d) {
            Some(c) if c.len() < d.len() => return c,
            _ => return d.to_vec(),
        },
        (_, 0 | 5) => {
            let mut c = vec![2u8];
            c.extend(zlib(d));
            c
        }
        (_, 1) => {
            let mut c = vec![0x10u8];
            c.extend(bz(d));
            c
        }
        (_, 3) => {
            let mut c = vec![8u8];
            match pk(d) {
                Some(p) => c.extend(p),
                None => return d.to_vec(),
            }
            c
        }
        _ => return d.to_vec(),
    };
    if c.len() >= d.len() {
        c = d.to_vec();
    }
    c
}
/// the stored form of a file and its flags
impl S25 {
    /// one language per name
    pub fn plain(&mut self) {
        self.files.iter_mut().for_each(|f| f.loc = 0)
    }
    pub fn seed(&self) -> u64 {
        self.lay
    }
    pub fn version(&self) -> u8 {
        self.ver.clamp(1, 4)
    }
}
fn stored(f: &FF, d: &[u8], sector: usize) -> (Vec<u8>, u32) {
    match f.how {
        0 => (d.to_vec(), EXISTS),
        2 => (d.to_vec(), EXISTS | SINGLE),
        3 => (piece(d, 3, f.method), EXISTS | SINGLE | COMPRESS),
        5 => (piece(d, 5, 0), EXISTS | SINGLE | IMPLODE),
        how => {
            let flag = if how == 4 { IMPLODE } else { COMPRESS };
            if d.is_empty() {
                return (vec![], EXISTS | flag);
            }
            let crc = f.crc && how == 1;
            let ps: Vec<Vec<u8>> = d.chunks(sector).enumerate().map(|(i, c)| piece(c, how, if f.method == 5 { (i % 4) as u8 } else { f.method })).collect();
            let mut at = 4 * (ps.len() + 1 + crc as usize) as u32;
            let mut head = vec![];
            let mut body = vec![];
            for p in &ps {
                head.extend_from_slice(&at.to_le_bytes());
                at += p.len() as u32;
                body.extend_from_slice(p);
            }
            head.extend_from_slice(&at.to_le_bytes());
            if crc {
                let sums: Vec<u8> = ps.iter().flat_map(|p| adler(p).to_le_bytes()).collect();
                at += sums.len() as u32;
                head.extend_from_slice(&at.to_le_bytes());
                body.extend_from_slice(&sums);
            }
            head.extend(body);
            (head, EXISTS | flag | if crc { CRC } else { 0 })
        }
    }
}
pub struct Made {
    pub len: u64,
    pub parts: Vec<(u64, Vec<u8>)>,
    off: u64,
    /// name -> acceptable contents
    model: BTreeMap<String, Vec<Vec<u8>>>,
    blocks: usize,
    listed: Option<BTreeMap<Vec<u8>, String>>,
    /// all blocks, and the first block of every name
    pub all: usize,
    pub at: BTreeMap<String, usize>,
}
fn dead(k: u8) -> String {
    format!("dead\\{}.bin", k)
}
fn words(v: &[u32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub fn make(s: &S25) -> Option<Made> {
    let c = Crypt::new();
    let mut r = Rng::new(s.lay);
    let ver = s.ver.clamp(1, 4);
    let sector = 512usize << s.block.min(8);
    let mut files = s.files.clone();
    let mut seen = BTreeSet::new();
    files.retain(|f| !f.name.is_empty() && seen.insert(norm(&f.name)));
    let gone: Vec<String> = s.gone.iter().filter(|g| seen.insert(norm(g))).cloned().collect();
    files.iter_mut().for_each(|f| f.loc = f.loc.min(3));
    let mut model: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    for f in &files {
        model.insert(f.name.clone(), (0..=f.loc).map(|l| f.data(l)).collect());
    }
    let mut extra: Option<Vec<u8>> = None;
    let mut listed = None;
    if s.list > 0 {
        let mut t = String::new();
        let mut m = BTreeMap::new();
        for f in &files {
            // what the list's own syntax cannot express
            if f.name.trim() != f.name || f.name.starts_with('#') || f.name.contains([';', '\n', '\r']) {
                return None;
            }
            m.insert(norm(&f.name), f.name.clone());
            t += &f.name;
            if s.list == 2 && r.chance(1, 5) {
                t += ";1234";
            }
            t += if s.list == 1 { "\n" } else { "\r\n" };
            if s.list == 2 && r.chance(1, 5) {
                t += *r.pick(&["; a comment\r\n", "# another\r\n", "\r\n", "stale\\name.txt\r\n"]);
            }
        }
        model.insert("(listfile)".into(), vec![t.clone().into_bytes()]);
        extra = Some(t.into_bytes());
        listed = Some(m);
    }
    // blocks in any order
    let mut blocks: Vec<(String, u16, Vec<u8>, u32, u32)> = vec![]; // name, locale, stored, size, flags
    for f in &files {
        for l in 0..=f.loc {
            let d = f.data(l);
            let (b, fl) = stored(f, &d, sector);
            blocks.push((f.name.clone(), [0u16, 0x407, 0x40c, 0x412][l as usize], b, d.len() as u32, fl));
        }
    }
    if let Some(d) = extra {
        let f = FF { name: "(listfile)".into(), size: 0, kind: 0, cseed: 0, how: r.below(6) as u8, method: r.below(6) as u8, crc: false, loc: 0 };
        let (b, fl) = stored(&f, &d, sector);
        blocks.push((f.name, 0, b, d.len() as u32, fl));
    }
    for k in 0..s.unused.min(5) {
        let d = content(r.below(50), 2, r.u64());
        let n = d.len() as u32;
        // some writers leave everything but the mark that the file exists
        blocks.push((String::new(), 0, d, n, [0, SINGLE, COMPRESS][k as usize % 3]));
    }
    for k in 0..s.dead.min(3) {
        let d = content(r.below(50), 2, r.u64());
        let n = d.len() as u32;
        blocks.push((dead(k), 0, d, n, [0, SINGLE, SINGLE | COMPRESS][k as usize % 3]));
    }
    if let Some((kinds, tail, how, method)) = s.attr {
        let f = FF { name: "(attributes)".into(), size: 0, kind: 0, cseed: 0, how: how % 6, method: method % 6, crc: false, loc: 0 };
        let d = super::attr::encode(blocks.len() + 1, kinds, s.lay, tail, false);
        let (b, fl) = stored(&f, &d, sector);
        blocks.push((f.name, 0, b, d.len() as u32, fl));
        model.insert("(attributes)".into(), vec![d]);
    }
    for i in (1..blocks.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        blocks.swap(i, j);
    }
    // the hash table, filled in any order
    let named: Vec<usize> = (0..blocks.len()).filter(|i| !blocks[*i].0.is_empty()).collect();
    let need = named.len() + gone.len();
    let mut n = (need + (s.room != 9) as usize).next_power_of_two().max(4);
    n <<= match s.room {
        1..=4 => s.room as usize - 1,
        _ => 0,
    };
    if s.room == 5 {
        n = n.max(1 << (15 + s.lay % 3));
    }
    let mut h = vec![[u32::MAX; 4]; n];
    let mut order: Vec<Option<usize>> = named.iter().map(|x| Some(*x)).collect();
    order.extend(gone.iter().map(|_| None));
    for i in (1..order.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        order.swap(i, j);
    }
    let mut g = gone.iter();
    for o in order {
        let (name, e) = match o {
            Some(b) => (blocks[b].0.clone(), [0, 0, blocks[b].1 as u32, b as u32]),
            None => {
                let name = g.next()?.clone();
                (name, [u32::MAX, u32::MAX, u32::MAX, u32::MAX - 1])
            }
        };
        let mut i = c.hash(name.as_bytes(), 0) as usize & (n - 1);
        while h[i][3] != u32::MAX {
            i = (i + 1) & (n - 1);
        }
        h[i] = e;
        // some writers leave the name of a deleted file
        if e[3] != u32::MAX - 1 || s.lay % 2 == 0 {
            h[i][0] = c.hash(name.as_bytes(), 1);
            h[i][1] = c.hash(name.as_bytes(), 2);
        }
        if e[3] == u32::MAX - 1 && s.lay % 2 == 0 {
            h[i][2] = 0;
        }
    }
    if s.room == 9 {
        for e in &mut h {
            if e[3] == u32::MAX {
                e[3] = u32::MAX - 1;
            }
        }
    }
    // where everything goes: relative to the archive's start
    let hsize = [32u64, 44, 68, 208][ver as usize - 1];
    // 0..blocks: file data, then hash table, block table, hi-block table
    let nb = blocks.len();
    let mut items: Vec<usize> = (0..nb + 2).collect();
    for i in (1..items.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        items.swap(i, j);
    }
    // far apart, but only the tables: no hi-block table is needed then
    let late = ver >= 2 && s.far > 1 && r.chance(1, 4);
    if late {
        items.sort_by_key(|i| *i >= nb);
    }
    let hi = ver >= 2 && !late && (s.far > 1 || r.chance(1, 3));
    if hi {
        let j = r.below(items.len() as u64 + 1) as usize;
        items.insert(j, nb + 2);
    }
    let size_of = |i: usize, blocks: &[(String, u16, Vec<u8>, u32, u32)]| -> u64 {
        match i.checked_sub(nb) {
            None => blocks[i].2.len() as u64,
            Some(0) => n as u64 * 16,
            Some(1) => nb as u64 * 16,
            _ => nb as u64 * 2,
        }
    };
    let mut at = hsize;
    let mut pos = vec![0u64; nb + 3];
    let mut jumps = 0;
    for i in &items {
        at += match s.far {
            0 => 0,
            1 => r.below(700),
            _ if late && *i < nb => r.below(40),
            _ if jumps < 3 && r.chance(1, 3) => {
                jumps += 1;
                match r.below(4) {
                    0 => r.range(2 << 30, 3 << 30),
                    1 => (1 << 32) - at.min(1 << 32) + r.below(64),
                    _ if s.far == 4 => r.range(1 << 40, 1 << 45),
                    _ if s.far == 3 => r.range(4 << 30, 200 << 30),
                    _ => r.range(1 << 30, 5 << 30),
                }
            }
            _ => r.below(40),
        };
        if ver == 1 && at + size_of(*i, &blocks) >= 1 << 32 {
            return None;
        }
        pos[*i] = at;
        at += size_of(*i, &blocks);
    }
    if nb == 0 {
        return None;
    }
    let end = at;
    let mut parts = vec![];
    let mut bt = vec![];
    for (i, b) in blocks.iter().enumerate() {
        if !b.2.is_empty() {
            parts.push((pos[i], b.2.clone()));
        }
        bt.extend_from_slice(&[pos[i] as u32, b.2.len() as u32, b.3, b.4]);
    }
    let mut ht: Vec<u32> = h.iter().flatten().copied().collect();
    c.encrypt(&mut ht, c.hash(b"(hash table)", 3));
    c.encrypt(&mut bt, c.hash(b"(block table)", 3));
    let (ht, bt) = (words(&ht), words(&bt));
    let hb: Vec<u8> = (0..nb).flat_map(|i| ((pos[i] >> 32) as u16).to_le_bytes()).collect();
    if !hi && (0..nb).any(|i| pos[i] >> 32 != 0) {
        return None;
    }
    let mut hd = vec![];
    hd.extend_from_slice(b"MPQ\x1a");
    hd.extend_from_slice(&(hsize as u32).to_le_bytes());
    hd.extend_from_slice(&(end.min(u32::MAX as u64) as u32).to_le_bytes());
    hd.extend_from_slice(&(ver as u16 - 1).to_le_bytes());
    hd.extend_from_slice(&(s.block.min(8) as u16).to_le_bytes());
    for x in [pos[nb] as u32, pos[nb + 1] as u32, n as u32, nb as u32] {
        hd.extend_from_slice(&x.to_le_bytes());
    }
    if ver >= 2 {
        hd.extend_from_slice(&(if hi { pos[nb + 2] } else { 0 }).to_le_bytes());
        hd.extend_from_slice(&((pos[nb] >> 32) as u16).to_le_bytes());
        hd.extend_from_slice(&((pos[nb + 1] >> 32) as u16).to_le_bytes());
    }
    if ver >= 3 {
        for x in [end, 0, 0] {
            hd.extend_from_slice(&x.to_le_bytes());
        }
    }
    if ver >= 4 {
        for x in [ht.len() as u64, bt.len() as u64, if hi { hb.len() as u64 } else { 0 }, 0, 0] {
            hd.extend_from_slice(&x.to_le_bytes());
        }
        hd.extend_from_slice(&0u32.to_le_bytes());
        hd.extend_from_slice(&Md5::digest(&bt));
        hd.extend_from_slice(&Md5::digest(&ht));
        hd.extend_from_slice(&if hi { Md5::digest(&hb).into() } else { [0u8; 16] });
        hd.extend_from_slice(&[0u8; 32]);
        let m = Md5::digest(&hd);
        hd.extend_from_slice(&m);
    }
    parts.push((0, hd));
    parts.push((pos[nb], ht));
    parts.push((pos[nb + 1], bt));
    if hi {
        parts.push((pos[nb + 2], hb));
    }
    // inside another file
    let mut off = s.prefix.min(20) as u64 * 512;
    let mut front = vec![b'p'; off as usize];
    if s.user >= 16 {
        let u = s.user.min(2000) as u64;
        front.extend_from_slice(b"MPQ\x1b");
        front.extend_from_slice(&(u as u32).to_le_bytes());
        front.extend_from_slice(&(u.div_ceil(512) as u32 * 512).to_le_bytes());
        front.extend_from_slice(&16u32.to_le_bytes());
        off += u.div_ceil(512) * 512;
    }
    for p in &mut parts {
        p.0 += off;
    }
    if !front.is_empty() {
        parts.push((0, front));
    }
    let used = blocks.iter().filter(|b| b.4 & EXISTS != 0).count();
    let at = blocks.iter().enumerate().rev().filter(|(_, b)| b.4 & EXISTS != 0).map(|(i, b)| (b.0.clone(), i)).collect();
    Some(Made { len: off + end + s.tail as u64, parts, off, model, blocks: used, listed, all: nb, at })
}
fn run_foreign(ctx: &mut Ctx, s: S25) {
    let Some(m) = simos::without(|| make(&s)) else { return };
    sim().fs.put_sparse("/w/out.mpq", m.len, &m.parts);
    let seed = ctx.seed();
    simos::phase(run::plan(1));
    let st = ctx.single(move || {
        simos::phase(Plan { seed: seed ^ 11, rates: s.w.rates(), ..Default::default() });
        feat(&format!("foreign v{} {}", s.ver, ["packed", "gaps", "far", "very far", "remote"][s.far.min(4) as usize]));
        let mut open: Option<Archive> = None;
        for round in 0..3 {
            if round == 2 {
                simos::phase(run::plan(seed));
            }
            let faulty = round < 2 && s.w.faulty();
            if open.is_none() || round > 0 {
                open = match guard(|| Archive::open("/w/out.mpq")) {
                    Some(Ok(a)) => Some(a),
                    Some(Err(e)) => {
                        if !faulty {
                            return fail(&format!("open-error {}", kindof(&e)), format!("a version {} archive of {} blocks at offset {} cannot be opened: {}", s.ver, m.blocks, m.off, e));
                        }
                        feat("open refused");
                        continue;
                    }
                    None => return,
                };
            }
            let Some(ar) = open.as_mut() else { continue };
            if ar.archive_offset() != m.off {
                return fail("offset", format!("archive at {} found at {}", m.off, ar.archive_offset()));
            }
            for (name, want) in &m.model {
                let f = s.files.iter().find(|f| f.name == *name);
                let how = f.map(|f| format!("how {} method {} crc {} {} bytes", f.how, f.method, f.crc, f.size)).unwrap_or_default();
                match guard(|| ar.read_file(name)) {
                    Some(Ok(d)) => {
                        if !want.contains(&d) {
                            return fail("wrong-bytes", format!("{:?} ({}, v{}, sector {}): {}", name, how, s.ver, 512u32 << s.block, diff(&want[0], &d)));
                        }
                    }
                    Some(Err(Error::FileNotFound(_))) => return fail("false-not-found", format!("{:?} is in the archive but not found (v{}, {} names)", name, s.ver, m.model.len())),
                    Some(Err(e)) => {
                        if !faulty {
                            return fail(&format!("read-error {}", kindof(&e)), format!("{:?} ({}, v{}, sector {}): {}", name, how, s.ver, 512u32 << s.block, e));
                        }
                    }
                    None => return,
                }
                match guard(|| ar.find_file(name)) {
                    Some(Ok(Some(i))) => {
                        if !want.iter().any(|w| w.len() as u64 == i.file_size) {
                            return fail("wrong-size", format!("{:?} has {} bytes, reported {}", name, want[0].len(), i.file_size));
                        }
                    }
                    Some(Ok(None)) => return fail("false-not-found", format!("{:?} is in the archive but not found", name)),
                    Some(Err(e)) if !faulty => return fail(&format!("find-error {}", kindof(&e)), format!("looking up {:?}: {}", name, e)),
                    Some(Err(_)) => {}
                    None => return,
                }
            }
            let dead: Vec<String> = (0..s.dead.min(3)).map(dead).collect();
            for name in s.gone.iter().chain(&dead).map(|s| s.as_str()).chain(["absent.txt", "no\\such\\file"]) {
                if m.model.keys().any(|k| norm(k) == norm(name)) {
                    continue;
                }
                match guard(|| ar.find_file(name)) {
                    Some(Ok(Some(_))) => return fail("absent-found", format!("{:?} is not in the archive (any more) but found", name)),
                    Some(_) => {}
                    None => return,
                }
            }
            if let Some(l) = &m.listed {
                match guard(|| ar.list()) {
                    Some(Ok(es)) => {
                        let got: BTreeSet<Vec<u8>> = es.iter().filter(|e| e.name != "(listfile)").map(|e| norm(&e.name)).collect();
                        let want: BTreeSet<Vec<u8>> = l.keys().cloned().collect();
                        if got != want {
                            return fail("list", format!("{} of {} listed files reported", got.len(), want.len()));
                        }
                    }
                    Some(Err(e)) if !faulty => return fail(&format!("list-error {}", kindof(&e)), format!("listing: {}", e)),
                    Some(Err(_)) => {}
                    None => return,
                }
            }
            let mut sizes: Vec<u64> = m.model.values().flatten().map(|d| d.len() as u64).collect();
            sizes.sort();
            for way in 0..4 {
                if way > 1 && m.listed.is_some() {
                    break;
                }
                let got = guard(|| match way {
                    0 => ar.list_all(),
                    1 => ar.list_all_with_hashes(),
                    2 => ar.list(),
                    _ => ar.list_with_hashes(),
                });
                match got {
                    Some(Ok(es)) => {
                        if es.len() != m.blocks {
                            return fail("list-all", format!("{} entries for {} files", es.len(), m.blocks));
                        }
                        let mut got: Vec<u64> = es.iter().map(|e| e.size).collect();
                        got.sort();
                        if sizes.len() == m.blocks && got != sizes {
                            return fail("list-sizes", format!("files of {:?} bytes listed as of {:?}", sizes, got));
                        }
                    }
                    Some(Err(e)) if !faulty => return fail(&format!("list-error {}", kindof(&e)), format!("listing: {}", e)),
                    Some(Err(_)) => {}
                    None => return,
                }
            }
            match guard(|| ar.get_info()) {
                Some(Ok(i)) => {
                    if i.file_size != m.len || i.archive_offset != m.off || i.sector_size as u64 != 512 << s.block.min(8) || i.file_count != m.blocks || i.has_listfile != (s.list > 0) {
                        return fail("info", format!("reported: {} bytes at {}, sectors of {}, {} files, list {}; it is {} bytes at {} with {} files", i.file_size, i.archive_offset, i.sector_size, i.file_count, i.has_listfile, m.len, m.off, m.blocks));
                    }
                    if let Some(d) = i.md5_status {
                        if s.ver == 4 && !(d.header_valid && d.hash_table_valid && d.block_table_valid && d.hi_block_table_valid) {
                            return fail("digests", format!("intact digests are reported wrong: {:?}", d));
                        }
                    }
                }
                Some(Err(e)) if !faulty => return fail(&format!("info-error {}", kindof(&e)), format!("information: {}", e)),
                Some(Err(_)) => {}
                None => return,
            }
        }
    });
    ctx.must_finish("read", &st);
}
// ---- the other way round -----------------------------------------------------------------------
fn u32at(f: &[u8], p: usize) -> Result<u32, String> {
    f.get(p..p + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).ok_or_else(|| format!("nothing at {:#x} of {:#x}", p, f.len()))
}
fn unpack(d: &[u8], size: usize, imploded: bool) -> Result<Vec<u8>, String> {
    if d.len() >= size {
        return Ok(d[..size].to_vec());
    }
    let out = match (imploded, d.first()) {
        (true, _) | (_, Some(8)) => pklib::explode_bytes(if imploded { d } else { &d[1..] }).map_err(|e| e.to_string())?,
        (_, Some(2)) => {
            let mut v = vec![];
            flate2::read::ZlibDecoder::new(&d[1..]).read_to_end(&mut v).map_err(|e| format!("zlib: {}", e))?;
            v
        }
        (_, Some(0x10)) => {
            let mut v = vec![];
            bzip2::read::BzDecoder::new(&d[1..]).read_to_end(&mut v).map_err(|e| format!("bzip2: {}", e))?;
            v
        }
        // others are not judged
        _ => return Err("?".into()),
    };
    if out.len() != size {
        return Err(format!("unpacks to {} bytes instead of {}", out.len(), size));
    }
    Ok(out)
}
struct Ref<'a> {
    f: &'a [u8],
    hash: Vec<u32>,
    block: Vec<u32>,
    hi: Option<Vec<u16>>,
    sector: usize,
}
impl Ref<'_> {
    fn open(f: &[u8]) -> Result<Ref<'_>, String> {
        let c = Crypt::new();
        let w16 = |p: usize| f.get(p..p + 2).map(|b| u16::from_le_bytes(b.try_into().unwrap())).ok_or("short header".to_string());
        let w64 = |p: usize| Ok::<u64, String>(u32at(f, p)? as u64 | (u32at(f, p + 4)? as u64) << 32);
        if !f.starts_with(b"MPQ\x1a") {
            return Err("no signature".into());
        }
        let ver = w16(12)?;
        if u32at(f, 4)? != [32u32, 44, 68, 208][ver.min(3) as usize] {
            return Err(format!("header size {} in version {}", u32at(f, 4)?, ver + 1));
        }
        if u32at(f, 8)? as usize != f.len() {
            return Err(format!("archive size {} of {}", u32at(f, 8)?, f.len()));
        }
        let (mut hp, mut bp) = (u32at(f, 16)? as u64, u32at(f, 20)? as u64);
        let (hn, bn) = (u32at(f, 24)? as usize, u32at(f, 28)? as usize);
        let mut hi = None;
        if ver >= 1 {
            let p = w64(32)? as usize;
            hp |= (w16(40)? as u64) << 32;
            bp |= (w16(42)? as u64) << 32;
            if p != 0 {
                hi = Some((0..bn).map(|i| w16(p + 2 * i)).collect::<Result<Vec<u16>, String>>()?);
            }
        }
        if ver >= 2 && w64(44)? as usize != f.len() {
            return Err(format!("64-bit archive size {} of {}", w64(44)?, f.len()));
        }
        if !hn.is_power_of_two() {
            return Err(format!("hash table of {} entries", hn));
        }
        let table = |p: u64, n: usize, name: &[u8]| -> Result<Vec<u32>, String> {
            let mut t = (0..n * 4).map(|i| u32at(f, p as usize + 4 * i)).collect::<Result<Vec<u32>, String>>()?;
            c.decrypt(&mut t, c.hash(name, 3));
            Ok(t)
        };
        let (hash, block) = (table(hp, hn, b"(hash table)")?, table(bp, bn, b"(block table)")?);
        if ver >= 3 {
            // digests of what is stored
            let d = |p: u64, n: u64| f.get(p as usize..(p + n) as usize).map(|b| <[u8; 16]>::from(Md5::digest(b))).ok_or("table outside the file".to_string());
            let at = |p: usize| f.get(p..p + 16).map(|b| b.to_vec()).unwrap_or_default();
            let (hz, bz) = (w64(68)?, w64(76)?);
            if hz != hn as u64 * 16 || bz != bn as u64 * 16 {
                return Err(format!("stored table sizes {} and {} for {} and {} entries", hz, bz, hn, bn));
            }
            for (what, p, n, m) in [("block table", bp, bz, 112), ("hash table", hp, hz, 128), ("BET table", w64(52)?, w64(100)?, 160), ("HET table", w64(60)?, w64(92)?, 176), ("header", 0, 192, 192)] {
                if n != 0 && d(p, n)?[..] != at(m)[..] {
                    return Err(format!("digest of the {} is wrong", what));
                }
            }
        }
        Ok(Ref { f, hash, block, hi, sector: 512 << w16(14)? })
    }
    /// every version of the file: locale and contents (None where the method is not judged)
    fn read(&self, name: &[u8]) -> Result<Vec<(u16, Option<Vec<u8>>)>, String> {
        let c = Crypt::new();
        let n = self.hash.len() / 4;
        let (a, b) = (c.hash(name, 1), c.hash(name, 2));
        let mut i = c.hash(name, 0) as usize & (n - 1);
        let mut out = vec![];
        for _ in 0..n {
            let e = &self.hash[i * 4..i * 4 + 4];
            if e[3] == u32::MAX {
                break;
            }
            if e[0] == a && e[1] == b && e[3] < u32::MAX - 1 {
                if e[2] >> 16 != 0 {
                    return Err(format!("platform {}", e[2] >> 16));
                }
                let k = e[3] as usize;
                let t = self.block.get(k * 4..k * 4 + 4).ok_or("block index outside the table")?;
                let pos = t[0] as u64 | self.hi.as_ref().map(|h| (h[k] as u64) << 32).unwrap_or(0);
                out.push((e[2] as u16, self.file(pos as usize, t[1] as usize, t[2] as usize, t[3])?));
            }
            i = (i + 1) & (n - 1);
        }
        Ok(out)
    }
    fn file(&self, pos: usize, csize: usize, size: usize, flags: u32) -> Result<Option<Vec<u8>>, String> {
        if flags & EXISTS == 0 {
            return Err("the block is not marked as existing".into());
        }
        if flags & ENCRYPTED != 0 {
            return Ok(None);
        }
        let raw = self.f.get(pos..pos + csize).ok_or("data outside the file")?;
        let imploded = flags & IMPLODE != 0;
        if flags & (COMPRESS | IMPLODE) == 0 {
            if csize != size {
                return Err(format!("stored as it is in {} bytes but {} long", csize, size));
            }
            return Ok(Some(raw.to_vec()));
        }
        let un = |d: &[u8], n: usize| match unpack(d, n, imploded) {
            Ok(v) => Ok(Some(v)),
            Err(e) if e == "?" => Ok(None),
            Err(e) => Err(e),
        };
        if flags & SINGLE != 0 {
            return un(raw, size);
        }
        // (the builder's checksum table is not counted in the stored size)
        let raw = &self.f[pos..];
        let mut v = vec![];
        for k in 0..size.div_ceil(self.sector) {
            let (s, e) = (u32at(raw, 4 * k)? as usize, u32at(raw, 4 * k + 4)? as usize);
            let d = raw.get(s..e).ok_or_else(|| format!("sector {} at {}..{} of {}", k, s, e, raw.len()))?;
            match un(d, self.sector.min(size - v.len()))? {
                Some(x) => v.extend_from_slice(&x),
                None => return Ok(None),
            }
        }
        Ok(Some(v))
    }
}
fn run_built(ctx: &mut Ctx, s: S25, a: Arch) {
    if a.has_duplicates() || a.files.iter().any(|f| f.enc != 0) {
        return;
    }
    a.put_sources("");
    let (st, r) = build(ctx, &a, "", "/w/out.mpq", Plan { seed: ctx.seed(), rates: RateSpec { read_err: 0, ..s.w.clone() }.rates(), ..Default::default() });
    if !ctx.must_finish("build", &st) || !matches!(r, Some(Ok(()))) {
        return;
    }
    let f = sim().fs.get("/w/out.mpq").unwrap_or_default();
    let x = match Ref::open(&f) {
        Ok(x) => x,
        Err(e) => return fail("layout", format!("a version {} archive just built is not what the format describes: {}", a.ver, e)),
    };
    feat(&format!("built v{}", a.ver));
    let mut n = 0;
    for (name, want) in a.model() {
        let got = match x.read(&name) {
            Ok(g) => g,
            Err(e) => return fail("unreadable", format!("{:?} in a version {} archive just built: {}", String::from_utf8_lossy(&name), a.ver, e)),
        };
        if got.len() != want.len() {
            return fail("versions", format!("{:?} was added {} times, the tables know {}", String::from_utf8_lossy(&name), want.len(), got.len()));
        }
        for (l, d) in want {
            let Some(g) = got.iter().find(|g| g.0 == l) else {
                return fail("versions", format!("{:?} for language {:#x} is not in the tables", String::from_utf8_lossy(&name), l));
            };
            match &g.1 {
                Some(g) if *g != d => return fail("built-wrong-bytes", format!("{:?} v{}: {}", String::from_utf8_lossy(&name), a.ver, diff(&d, g))),
                Some(_) => feat("contents compared"),
                None => feat("method not judged"),
            }
            n += 1;
        }
    }
    if x.block.len() / 4 != n {
        fail("blocks", format!("{} files were added, the block table has {} entries", n, x.block.len() / 4));
    }
}
fn run25(ctx: &mut Ctx, v: &Value) {
    let Ok(mut s) = serde_json::from_value::<S25>(v.clone()) else { return };
    match s.built.take() {
        Some(a) => run_built(ctx, s, a),
        None => run_foreign(ctx, s),
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C25", gen: gen25, run: run25, quick: 20000, rule: "an archive from an independent writer (any order and distance of its parts, deleted and unused entries, full tables, raw, compressed, imploded and single-unit files) is read by the library under faults and after them, or an archive from the library's builder is read by an independent reader; non-trivial: an archive was written", real: REAL_LIB, stub: STUB_LIB, assume: ASSUME }]
}
