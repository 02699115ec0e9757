//! C26: sound compressed with losses stays what it was, and nothing else is touched by it.
use super::core::*;
use super::*;
use crate::run::*;
use crate::work::*;
use mopaq::{Archive, Error};
use serde::{Deserialize, Serialize};
use serde_json::to_value;
use simos::{sim, Plan};
use std::collections::{BTreeMap, BTreeSet};

const LOSSY: u8 = 0xC0;

#[derive(Clone, Serialize, Deserialize)]
struct S26 {
    a: Arch,
    w: RateSpec,
    r: RateSpec,
    /// bytes of stored sound changed afterwards (archives with checksums)
    hits: u32,
    seed: u64,
}
fn gen26(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 6, locales: false, big: false });
    a.block = a.block.min(6);
    let sector = a.sector();
    for f in &mut a.files {
        f.size = f.size.min(40_000);
        if r.chance(2, 3) {
            let ch = r.range(1, 2) as u8;
            f.kind = if r.chance(1, 20) { 1 } else { 20 + 7 * (ch - 1) + r.below(7) as u8 };
            let how = match (ch, r.below(12)) {
                (_, 0) => LOSSY,
                (1, _) => 0x40,
                _ => 0x80,
            };
            f.comp = how | *r.pick(&[0u8, 0, 0, 2, 8, 0x10, 0x20]);
            f.size = match r.below(6) {
                0 => r.range(0, 40),
                1 => sector * r.range(1, 3) + *r.pick(&[0u64, 2, 4, 8, 100]),
                2 => (sector * r.range(1, 3)).saturating_sub(*r.pick(&[2u64, 4, 8])),
                3 => r.range(1000, 12_000),
                _ => r.range(100, 3000),
            };
            if !r.chance(1, 25) {
                f.size &= !3;
            }
        }
    }
    if r.chance(1, 3) {
        a.comp = *r.pick(&[0x40u8, 0x80, 0x42, 0x90, 0xC0]);
    }
    let rates = match r.below(4) {
        0 => RateSpec::default(),
        1 => RateSpec::benign(r),
        _ => RateSpec { short: 100, eintr: 50, read_err: *r.pick(&[20u32, 100]), ..Default::default() },
    };
    to_value(S26 { a, w: RateSpec::benign(r), r: rates, hits: if r.chance(1, 2) { r.range(1, 4) as u32 } else { 0 }, seed: r.u64() >> 12 }).unwrap()
}
/// Every sample near the one put in. The bound is half the largest step between neighbouring samples of
/// the sector, and 32: about twice what the method needs on the worst of signals.
fn near(want: &[u8], got: &[u8], ch: usize, sector: usize) -> Result<(), String> {
    if want.len() != got.len() {
        return Err(format!("{} bytes instead of {}", got.len(), want.len()));
    }
    for (k, (w, g)) in want.chunks(sector).zip(got.chunks(sector)).enumerate() {
        if w == g {
            continue;
        }
        let s = |d: &[u8]| -> Vec<i64> { d.chunks_exact(2).map(|b| i16::from_le_bytes([b[0], b[1]]) as i64).collect() };
        let (w, g) = (s(w), s(g));
        let step = (ch..w.len()).map(|i| (w[i] - w[i - ch]).abs()).max().unwrap_or(0);
        for i in 0..w.len() {
            if (w[i] - g[i]).abs() > step / 2 + 32 {
                return Err(format!("sample {} of sector {} is {} instead of {} (steps up to {})", i, k, g[i], w[i], step));
            }
        }
    }
    Ok(())
}
fn channels(how: u8) -> u64 {
    if how & 0x80 != 0 {
        2
    } else {
        1
    }
}
fn run26(ctx: &mut Ctx, v: &Value) {
    let Ok(s) = serde_json::from_value::<S26>(v.clone()) else { return };
    let a = s.a.clone();
    if a.has_duplicates() {
        return;
    }
    a.put_sources("");
    let lossy: Vec<&FileSpec> = a.files.iter().filter(|f| a.eff_comp(f) & LOSSY != 0).collect();
    for f in &lossy {
        feat(&format!("sound {:#x} {} enc={} crc={}", a.eff_comp(f), if f.size > a.sector() { "multi" } else { "single" }, a.encrypted(f), a.crc));
    }
    let (st, r) = build(ctx, &a, "", "/w/out.mpq", Plan { seed: ctx.seed(), rates: s.w.rates(), ..Default::default() });
    if !ctx.must_finish("build", &st) {
        return;
    }
    match r {
        Some(Ok(())) => {}
        Some(Err(e)) => {
            // not sound, or a method that does not take every input
            let whole = |f: &&FileSpec| f.size % (2 * channels(a.eff_comp(f))) == 0 && a.eff_comp(f) & 8 == 0;
            if lossy.iter().all(whole) && a.files.iter().all(|f| f.comp != 255 || a.comp & LOSSY == 0 || whole(&f)) {
                fail(&format!("build-error {}", kindof(&e)), format!("building an archive of whole samples failed: {}", e));
            }
            feat("refused");
            return;
        }
        None => return,
    }
    let want: BTreeMap<String, Vec<u8>> = a.files.iter().map(|f| (f.name.clone(), f.data())).collect();
    let clean = sim().fs.get("/w/out.mpq").unwrap_or_default();
    let st = ctx.single(move || {
        let mut first: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut places = vec![];
        let mut open: Option<Archive> = None;
        for round in 0..3u64 {
            let rates = if round == 1 { s.r.rates() } else { Default::default() };
            let faulty = round == 1 && s.r.faulty();
            simos::phase(Plan { seed: s.seed ^ round, rates, ..Default::default() });
            if round == 1 {
                open = None;
            }
            if open.is_none() {
                open = match guard(|| Archive::open("/w/out.mpq")) {
                    Some(Ok(x)) => Some(x),
                    Some(Err(e)) if !faulty => return fail(&format!("open-error {}", kindof(&e)), format!("an archive just built cannot be opened: {}", e)),
                    Some(Err(_)) => continue,
                    None => return,
                };
            }
            let Some(ar) = open.as_mut() else { continue };
            for f in &a.files {
                let how = a.eff_comp(f);
                match guard(|| ar.read_file(&f.name)) {
                    Some(Ok(d)) => {
                        let w = &want[&f.name];
                        let r = if how & LOSSY == 0 {
                            if d == *w {
                                Ok(())
                            } else {
                                Err(diff(w, &d))
                            }
                        } else {
                            near(w, &d, channels(how) as usize, a.sector() as usize)
                        };
                        if let Err(e) = r {
                            return fail(&format!("altered {:#x}", how), format!("{}: {}", describe(&a, &f.name), e));
                        }
                        if *first.entry(f.name.clone()).or_insert_with(|| d.clone()) != d {
                            return fail("unstable", format!("{} read twice gives different contents", describe(&a, &f.name)));
                        }
                        feat("read back");
                    }
                    Some(Err(e)) if !faulty => return fail(&format!("read-error {}", kindof(&e)), format!("{}: {}", describe(&a, &f.name), e)),
                    Some(Err(_)) => {}
                    None => return,
                }
                if round == 0 && how & LOSSY != 0 {
                    if let Some(Ok(Some(i))) = guard(|| ar.find_file(&f.name)) {
                        places.push((f.name.clone(), i.file_pos, i.compressed_size));
                    }
                }
            }
            if a.list == 0 {
                continue;
            }
            match guard(|| ar.list()) {
                Some(Ok(es)) => {
                    let got: BTreeSet<String> = es.iter().map(|e| e.name.clone()).collect();
                    let mut names: BTreeSet<String> = want.keys().cloned().collect();
                    names.insert("(listfile)".into());
                    let plain = names.iter().all(|n| n.trim() == n && !n.contains(';') && !n.starts_with('#'));
                    if plain && got != names {
                        return fail("list", format!("default method {:#x}: {} names listed of {}", a.comp, got.intersection(&names).count(), names.len()));
                    }
                }
                Some(Err(e)) if !faulty => return fail(&format!("list-error {}", kindof(&e)), format!("default method {:#x}: {}", a.comp, e)),
                Some(Err(_)) => {}
                None => return,
            }
        }
        if s.hits == 0 || !a.crc {
            return;
        }
        let mut r = Rng::new(s.seed ^ 99);
        for (name, pos, size) in places {
            if size == 0 {
                continue;
            }
            let mut bad = clean.clone();
            for _ in 0..s.hits {
                let at = (pos + r.below(size)) as usize;
                if let Some(b) = bad.get_mut(at) {
                    *b ^= 1 << r.below(8);
                }
            }
            simos::without(|| {
                sim().fs.put("/w/bad.mpq", &bad);
                *sim().counts.entry("medium_damage".into()).or_insert(0) += 1;
            });
            simos::phase(Plan { seed: s.seed, ..Default::default() });
            let Some(r) = guard(|| -> Result<Vec<u8>, Error> { Archive::open("/w/bad.mpq")?.read_file(&name) }) else { return };
            match r {
                Ok(d) if Some(&d) != first.get(&name) => return fail("damage-passed", format!("{} reads as something else although its checksums were damaged or cannot match", describe(&a, &name))),
                Ok(_) => feat("damage without effect"),
                Err(_) => feat("damage caught"),
            }
        }
    });
    ctx.must_finish("read", &st);
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C26", gen: gen26, run: run26, quick: 12000, rule: "archives with ADPCM-compressed sound (one or two channels, alone or followed by another method) and ordinary files are built under split and interrupted writes, read back under faults and after damage; non-trivial: the builder accepted the archive", real: REAL_LIB, stub: STUB_LIB, assume: ASSUME }]
}
