//! Workloads: archive descriptions, contents, names, and the model of what an archive holds.
use mopaq::{ArchiveBuilder, FormatVersion, ListfileOption};
use serde::{Deserialize, Serialize};
use simos::prng::{mix, Rng};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileSpec {
    pub name: String,
    pub size: u64,
    pub kind: u8,
    pub cseed: u64,
    /// compression method; 255 = the builder's default (the short form of the call)
    pub comp: u8,
    /// 0 plain, 1 encrypted, 2 encrypted with position-adjusted key, 3 the adjusted-key call without the adjustment
    pub enc: u8,
    pub locale: u16,
    /// added from a source file instead of memory
    pub path: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Arch {
    pub ver: u8,
    pub block: u16,
    pub comp: u8,
    /// 0 none, 1 generated, 2 external
    pub list: u8,
    pub crc: bool,
    pub ctab: bool,
    pub tcomp: u8,
    pub files: Vec<FileSpec>,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RateSpec {
    #[serde(default)]
    pub short: u32,
    #[serde(default)]
    pub eintr: u32,
    #[serde(default)]
    pub read_err: u32,
    #[serde(default)]
    pub write_err: u32,
    #[serde(default)]
    pub meta_err: u32,
    #[serde(default)]
    pub rare_err: u32,
}
impl RateSpec {
    pub fn faulty(&self) -> bool {
        self.read_err + self.write_err + self.meta_err + self.rare_err > 0
    }
    pub fn rates(&self) -> simos::Rates {
        simos::Rates { short: self.short, eintr: self.eintr, read_err: self.read_err, write_err: self.write_err, meta_err: self.meta_err, rare_err: self.rare_err }
    }
    pub fn benign(r: &mut Rng) -> RateSpec {
        match r.below(4) {
            0 => RateSpec::default(),
            1 => RateSpec { short: 300, ..Default::default() },
            2 => RateSpec { eintr: 150, ..Default::default() },
            _ => RateSpec { short: 500, eintr: 200, ..Default::default() },
        }
    }
}
pub const LOSSLESS: [u8; 6] = [0, 0x02, 0x08, 0x10, 0x12, 0x20];

fn signal(r: &mut Rng, kind: u8, n: usize) -> Vec<i16> {
    let amp = *r.pick(&[0i64, 10, 100, 1000, 8000, 20000, 32767]);
    let dc = if amp == 32767 { 0 } else { r.range(0, 2 * (32767 - amp) as u64) as i64 - (32767 - amp) };
    let per = *r.pick(&[2i64, 7, 20, 50, 200, 1000]);
    let mut w = dc;
    (0..n as i64)
        .map(|i| {
            let v = match kind {
                // silence, a triangle, a parabola, a random walk, noise, a square, clicks
                0 => dc,
                1 => dc + amp * ((i % per) * 2 - per).abs() * 2 / per - amp,
                2 => {
                    let x = (i % per) * 4096 / per - 2048;
                    dc + amp * (x * x >> 11) / 1024 - amp
                }
                3 => {
                    w += (r.below(2001) as i64 - 1000) * amp / (1000 * per);
                    w = w.clamp(dc - amp, dc + amp);
                    w
                }
                4 => dc + amp * (r.below(2001) as i64 - 1000) / 1000,
                5 => {
                    if i / per % 2 == 0 {
                        dc + amp
                    } else {
                        dc - amp
                    }
                }
                _ => {
                    if r.chance(1, 50) {
                        *r.pick(&[-32768i64, 32767])
                    } else {
                        dc
                    }
                }
            };
            v.clamp(-32768, 32767) as i16
        })
        .collect()
}
pub fn content(size: u64, kind: u8, seed: u64) -> Vec<u8> {
    let n = size.min(8 << 20) as usize;
    let mut r = Rng::new(mix(seed, 0xc0de));
    let mut v = Vec::with_capacity(n);
    match kind {
        0 => v.resize(n, 0),
        1 => {
            while v.len() < n {
                v.extend_from_slice(&r.u64().to_le_bytes());
            }
        }
        2 => {
            const W: [&str; 12] = ["the ", "archive ", "sector ", "of ", "orcs ", "and ", "humans\r\n", "block ", "table ", "hash ", "zug ", "lok'tar "];
            while v.len() < n {
                v.extend_from_slice(r.pick(&W).as_bytes());
            }
        }
        3 => {
            let p = r.range(1, 37) as usize;
            let b = r.u64() as u8;
            for i in 0..n {
                v.push(b.wrapping_add((i % p) as u8));
            }
        }
        4 => {
            // runs of zeros of telling lengths between runs of bytes
            while v.len() < n {
                let z = *r.pick(&[1u64, 2, 126, 127, 128, 129, 254, 255, 256, 300]);
                let l = *r.pick(&[1u64, 2, 3, 126, 127, 128, 255]);
                for _ in 0..z {
                    v.push(0);
                }
                for _ in 0..l {
                    v.push(r.range(1, 255) as u8);
                }
            }
        }
        5 => {
            // parts that compress and parts that do not
            while v.len() < n {
                let l = r.range(100, 5000) as usize;
                if r.chance(1, 2) {
                    for _ in 0..l {
                        v.push(r.u64() as u8);
                    }
                } else {
                    let b = r.u64() as u8;
                    v.extend(std::iter::repeat(b).take(l));
                }
            }
        }
        6 => {
            // looks like archive structures
            while v.len() < n {
                v.extend_from_slice(*r.pick(&[&b"MPQ\x1a"[..], b"MPQ\x1b", b"HET\x1a", b"NGIS", &[0xff; 5], &[0u8; 12], &[2, 0x78, 0x9c], &[0x10, b'B', b'Z', b'h']]));
            }
        }
        8 => {
            // nearly an (attributes) file
            v.extend_from_slice(&if r.chance(3, 4) { 100u32 } else { r.u64() as u32 & 0xff }.to_le_bytes());
            v.extend_from_slice(&((r.u64() % 32) as u32).to_le_bytes());
            while v.len() < n {
                v.push(r.u64() as u8);
            }
        }
        9 => {
            // nearly a list of names
            while v.len() < n {
                v.extend_from_slice(*r.pick(&[&b"\r\n"[..], b";", b"#", b" ", b"file", b"..\\..\\x", b"/etc/x", &[0xff, 0xfe], &[0], b"(listfile)", b"\n\n"]));
            }
        }
        20..=33 => {
            // 16-bit samples: one channel (20..) or two (27..)
            let ch = if kind < 27 { 1 } else { 2 };
            let mut t: Vec<Vec<i16>> = vec![];
            for _ in 0..ch {
                t.push(signal(&mut r, (kind - 20) % 7, n / 2 / ch + 2));
            }
            let mut i = 0;
            while v.len() < n {
                for c in &t {
                    v.extend_from_slice(&c[i].to_le_bytes());
                }
                i += 1;
            }
        }
        _ => {
            // barely compressible: random with a short repetition at the end
            let k = n.saturating_sub(r.range(4, 40) as usize);
            while v.len() < k {
                v.push(r.u64() as u8);
            }
            let b = r.u64() as u8;
            v.resize(n, b);
        }
    }
    v.truncate(n);
    v
}
impl FileSpec {
    pub fn data(&self) -> Vec<u8> {
        content(self.size, self.kind, self.cseed)
    }
}
pub fn norm(n: &str) -> Vec<u8> {
    n.bytes().map(|b| if b == b'/' { b'\\' } else { b.to_ascii_uppercase() }).collect()
}
pub fn version(v: u8) -> FormatVersion {
    match v {
        2 => FormatVersion::V2,
        3 => FormatVersion::V3,
        4 => FormatVersion::V4,
        _ => FormatVersion::V1,
    }
}
impl Arch {
    pub fn sector(&self) -> u64 {
        512u64 << self.block.min(31)
    }
    /// source files used by `builder`
    pub fn put_sources(&self, tag: &str) {
        let s = simos::sim();
        for (i, f) in self.files.iter().enumerate() {
            if f.path {
                s.fs.put(&format!("/w/src{}/{}", tag, i), &f.data());
            }
        }
        if self.list == 2 {
            s.fs.put(&format!("/w/src{}/list", tag), self.listfile().as_bytes());
        }
    }
    pub fn listfile(&self) -> String {
        let mut s = String::new();
        for f in &self.files {
            s.push_str(&f.name);
            s.push_str("\r\n");
        }
        s.push_str("(listfile)\r\n");
        s
    }
    pub fn builder(&self, tag: &str) -> ArchiveBuilder {
        let mut b = ArchiveBuilder::new()
            .version(version(self.ver))
            .block_size(self.block.min(31))
            .default_compression(self.comp)
            .generate_crcs(self.crc)
            .compress_tables(self.ctab)
            .table_compression(self.tcomp)
            .listfile_option(match self.list {
                0 => ListfileOption::None,
                2 => ListfileOption::External(format!("/w/src{}/list", tag).into()),
                _ => ListfileOption::Generate,
            });
        for (i, f) in self.files.iter().enumerate() {
            let p = format!("/w/src{}/{}", tag, i);
            b = if f.enc >= 2 {
                let comp = if f.comp == 255 { self.comp } else { f.comp };
                if f.path {
                    b.add_file_with_encryption(&p, &f.name, comp, f.enc == 2, f.locale)
                } else {
                    b.add_file_data_with_encryption(f.data(), &f.name, comp, f.enc == 2, f.locale)
                }
            } else if f.comp == 255 {
                if f.path {
                    b.add_file(&p, &f.name)
                } else {
                    b.add_file_data(f.data(), &f.name)
                }
            } else if f.path {
                b.add_file_with_options(&p, &f.name, f.comp, f.enc == 1, f.locale)
            } else {
                b.add_file_data_with_options(f.data(), &f.name, f.comp, f.enc == 1, f.locale)
            };
        }
        b
    }
    pub fn eff_comp(&self, f: &FileSpec) -> u8 {
        if f.comp == 255 {
            self.comp
        } else {
            f.comp
        }
    }
    pub fn encrypted(&self, f: &FileSpec) -> bool {
        // the short calls take no encryption flag
        f.enc >= 2 || (f.enc == 1 && f.comp != 255)
    }
    pub fn eff_locale(&self, f: &FileSpec) -> u16 {
        if f.comp == 255 && f.enc < 2 {
            0
        } else {
            f.locale
        }
    }
    /// two files of the same name and language (or a file that clashes with the listfile)
    pub fn has_duplicates(&self) -> bool {
        let mut s = std::collections::BTreeSet::new();
        if self.list != 0 {
            s.insert((norm("(listfile)"), 0));
        }
        self.files.iter().any(|f| !s.insert((norm(&f.name), self.eff_locale(f))))
    }
    pub fn listfile_bytes(&self) -> Option<Vec<u8>> {
        match self.list {
            0 => None,
            _ => Some(self.listfile().into_bytes()),
        }
    }
    /// what a reader has to find: name -> contents of every file that can be meant by the name
    pub fn model(&self) -> BTreeMap<Vec<u8>, Vec<(u16, Vec<u8>)>> {
        let mut m: BTreeMap<Vec<u8>, Vec<(u16, Vec<u8>)>> = BTreeMap::new();
        for f in &self.files {
            m.entry(norm(&f.name)).or_default().push((self.eff_locale(f), f.data()));
        }
        if let Some(l) = self.listfile_bytes() {
            m.entry(norm("(listfile)")).or_default().push((0, l));
        }
        m
    }
}

// ---- generators --------------------------------------------------------------------------------
pub fn name(r: &mut Rng, i: usize) -> String {
    const DIRS: [&str; 8] = ["", "Units\\", "units\\human\\", "scripts/", "War3\\Maps/", "a\\", "deep\\er\\and\\deeper\\", "With Space\\"];
    const STEMS: [&str; 14] = ["file", "File", "FILE", "readme", "x", "Footman", "data_", "æøå", "0", "long-name-long-name-long-name-long-name-long-name-", "a.b.c", "~tmp", "war3map", "[b]"];
    if r.chance(1, 60) {
        // as long as names get, and longer
        let n = *r.pick(&[1usize, 100, 254, 255, 256, 259, 260, 300, 1000]);
        let mut s = format!("{}{}", i, if r.chance(1, 2) { "Long\\" } else { "lo/" });
        while s.len() < n {
            s.push(*r.pick(&['a', 'B', '7', '_', '.']));
        }
        s.push('e');
        return s;
    }
    const EXT: [&str; 7] = [".txt", ".mdx", ".blp", "", ".TXT", ".j", ".tar.gz"];
    format!("{}{}{}{}", r.pick(&DIRS), r.pick(&STEMS), if r.chance(4, 5) { i.to_string() } else { String::new() }, r.pick(&EXT))
}
/// Now and then an archive of another order of magnitude: many files, or a large one.
pub fn scale(r: &mut Rng, a: &mut Arch) {
    let plain = |name: String, size: u64, r: &mut Rng| FileSpec { name, size, kind: *r.pick(&[1u8, 2, 2, 3]), cseed: r.u64() >> 12, comp: *r.pick(&[255u8, 0, 2]), enc: *r.pick(&[0u8, 0, 1]), locale: 0, path: false };
    match r.below(120) {
        0..=3 => {
            let n = r.range(13, 150) as usize;
            a.files = names(r, n).into_iter().map(|x| { let z = r.range(0, 120); plain(x, z, r) }).collect();
        }
        4 => {
            let n = *r.pick(&[300usize, 513, 600, 1024, 1030]);
            a.files = names(r, n).into_iter().map(|x| { let z = r.range(0, 20); plain(x, z, r) }).collect();
        }
        5 | 6 => {
            let z = r.range(66_000, 400_000);
            let at = r.below(a.files.len() as u64 + 1) as usize;
            let f = plain("a\\large file.bin".into(), z, r);
            a.files.insert(at, f);
        }
        7 => {
            let z = r.range(1 << 20, 3 << 20);
            let at = r.below(a.files.len() as u64 + 1) as usize;
            let f = plain("a\\larger file.bin".into(), z, r);
            a.block = *r.pick(&[0u16, 0, 1, 3, 5, 8, 12]);
            a.files.insert(at, f);
        }
        _ => {}
    }
}
/// Two different names that share one of the hashes the tables keep of them.
pub fn twins(r: &mut Rng) -> (String, String) {
    use crate::collide::*;
    if r.chance(1, 6) {
        // characters that case folding must leave alone
        let (a, b) = *r.pick(&CASELESS);
        let (a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
        return (a.into(), b.into());
    }
    let kind = *r.pick(&[SAME_A, SAME_B, SAME_SLOT, SAME_LOW, SAME_HIGH, SAME_64]);
    let (a, b) = *r.pick(kind);
    let (a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
    (format!("data\\u{:x}.bin", a), format!("data\\u{:x}.bin", b))
}
const CASELESS: [(&str, &str); 5] = [("data\\map[1].bin", "data\\map{1}.bin"), ("data\\x@1.bin", "data\\x`1.bin"), ("data\\x^1.bin", "data\\x~1.bin"), ("data\\x\\1.bin", "data\\x|1.bin"), ("data\\é.bin", "data\\É.bin")];
/// The other name of a pair of twins.
pub fn twin_of(n: &str) -> Vec<String> {
    use crate::collide::*;
    if let Some((a, b)) = CASELESS.iter().find(|(a, b)| *a == n || *b == n) {
        return vec![if *a == n { b } else { a }.to_string()];
    }
    let Some(k) = n.strip_prefix("data\\u").and_then(|x| x.strip_suffix(".bin")).and_then(|x| u32::from_str_radix(x, 16).ok()) else { return vec![] };
    let all = [SAME_A, SAME_B, SAME_SLOT, SAME_LOW, SAME_HIGH, SAME_64].concat();
    all.iter().filter_map(|(a, b)| if *a == k { Some(*b) } else if *b == k { Some(*a) } else { None }).map(|x| format!("data\\u{:x}.bin", x)).collect()
}
pub fn names(r: &mut Rng, n: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut k = 0;
    // sometimes names whose hashes collide: one of them, or both
    if n > 1 && r.chance(1, 8) {
        let (a, b) = twins(r);
        seen.insert(norm(&a));
        out.push(a);
        if r.chance(1, 2) {
            seen.insert(norm(&b));
            out.push(b);
        }
    }
    while out.len() < n {
        let s = name(r, k);
        k += 1;
        if !s.is_empty() && seen.insert(norm(&s)) {
            out.push(s);
        }
    }
    out
}
pub fn size(r: &mut Rng, sector: u64, big: bool) -> u64 {
    match r.below(12) {
        0 => 0,
        1 => r.range(1, 8),
        2 => r.range(1, sector),
        3 => sector - 1,
        4 => sector,
        5 => sector + 1,
        6 => sector * 2,
        7 => sector * r.range(2, 5) + *r.pick(&[0u64, 1, 2, 3]),
        8 => (sector * r.range(1, 4)).saturating_sub(r.range(1, 4)),
        9 => r.range(1, 600),
        10 => r.range(sector, sector * 6),
        _ => {
            if big {
                r.range(1, sector * 30)
            } else {
                r.range(1, 3000)
            }
        }
    }
    .min(400_000)
}
pub fn comp(r: &mut Rng) -> u8 {
    *r.pick(&LOSSLESS)
}
pub struct ArchOpts {
    pub max_files: u64,
    pub locales: bool,
    pub big: bool,
}
impl Default for ArchOpts {
    fn default() -> Self {
        ArchOpts { max_files: 8, locales: false, big: true }
    }
}
pub fn arch(r: &mut Rng, o: &ArchOpts) -> Arch {
    let ver = r.range(1, 4) as u8;
    let mut block = *r.pick(&[0u16, 0, 1, 2, 3, 3, 4, 5, 7]);
    // one file of very many sectors, or one large sector
    let many = o.big && r.chance(1, 40);
    if many {
        block = *r.pick(&[0u16, 0, 0, 1, 3, 9, 12, 22, 31]);
    }
    let sector = 512u64 << block;
    let n = match r.below(8) {
        0 => r.range(0, 1),
        1..=5 => r.range(1, 5),
        _ => r.range(3, o.max_files.max(4)),
    } as usize;
    let ns = names(r, n);
    let uniform = if r.chance(1, 3) { Some(comp(r)) } else { None };
    let mut files: Vec<FileSpec> = ns
        .into_iter()
        .map(|name| FileSpec {
            name,
            size: size(r, sector, o.big),
            kind: r.below(8) as u8,
            cseed: r.u64() >> 12,
            comp: uniform.unwrap_or_else(|| if r.chance(1, 4) { 255 } else { comp(r) }),
            enc: *r.pick(&[0u8, 0, 0, 1, 1, 2, 2, 3]),
            locale: if o.locales && r.chance(1, 4) { *r.pick(&[0x409u16, 0x407, 0x40c]) } else { 0 },
            path: r.chance(1, 4),
        })
        .collect();
    if many && !files.is_empty() {
        let k = r.below(files.len() as u64) as usize;
        let n = *r.pick(&[63u64, 64, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 513, 1000, 1024, 1025]);
        files[k].size = (sector * n + *r.pick(&[0u64, 0, 1, 5, sector - 1, sector - 3])).min(700_000).max(65_530 + r.below(12));
    }
    Arch { ver, block, comp: comp(r), list: *r.pick(&[0u8, 1, 1, 1, 2]), crc: r.chance(1, 2), ctab: r.chance(1, 3), tcomp: *r.pick(&[0x02u8, 0x10, 0x12]), files }
}
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("expected {} bytes, got {} bytes, first difference at offset {}", a.len(), b.len(), i)
}
