//! C19: signature verdicts.
use super::core::*;
use super::*;
use crate::keys::*;
use crate::run::*;
use crate::work::*;
use md5::{Digest, Md5};
use mopaq::{Archive, SignatureStatus};
use num_bigint::BigUint;
use serde::{Deserialize, Serialize};
use serde_json::to_value;
use sha1::Sha1;
use simos::{sim, Plan};

#[derive(Serialize, Deserialize)]
struct S19 {
    a: Arch,
    /// 1 weak, 2 strong, 3 both, 0 none
    sig: u8,
    /// distance of the signature file from the next 64 KB boundary (0: wherever it falls)
    edge: u32,
    /// 512-byte units of foreign data in front
    units: u32,
    /// bytes behind everything
    tail: u32,
    /// version 1: bytes that belong to the archive but lie behind its tables
    #[serde(default)]
    gap: u32,
    /// 0 none; 1 bit flip in covered bytes; 2 run of covered bytes; 3 cut off; 4 signature bytes; 5 signature of other contents;
    /// 6 digest off by one byte; 7 signature of zeros or ones; 8 two bytes exchanged; 9 covered bytes inserted/removed;
    /// 10 the right digest in a signature otherwise not made as the format says
    tamper: u8,
    /// where: 0 anywhere, 1 header, 2 just before the signature, 3 just behind it, 4 next to a 64 KB boundary, 5 last bytes, 6 tables
    place: u8,
    at: u32,
    val: u32,
    r: RateSpec,
    seed: u64,
}
fn gen19(r: &mut Rng, _i: u64, _t: &str) -> Value {
    let mut a = arch(r, &ArchOpts { max_files: 5, locales: false, big: false });
    a.crc = false;
    for f in &mut a.files {
        f.size = f.size.min(3000);
        if f.kind == 6 {
            f.kind = 2;
        }
        if f.comp == 255 {
            f.comp = 0;
        }
    }
    if r.chance(1, 3) {
        scale(r, &mut a);
    }
    let edge = if r.chance(1, 2) { r.range(1, 100) as u32 } else { 0 };
    if edge != 0 || r.chance(1, 4) {
        a.block = 9;
        a.files.insert(0, FileSpec { name: "filler.bin".into(), size: r.range(60_000, 140_000), kind: 1, cseed: r.u64() >> 12, comp: 0, enc: 0, locale: 0, path: false });
    }
    let rates = match r.below(4) {
        0 | 1 => RateSpec::benign(r),
        2 => RateSpec { short: 100, eintr: 50, read_err: 80, meta_err: 30, ..Default::default() },
        _ => RateSpec::default(),
    };
    to_value(S19 {
        a,
        sig: *r.pick(&[1u8, 1, 1, 1, 2, 2, 2, 3, 0]),
        edge,
        units: *r.pick(&[0u32, 0, 0, 1, 3, 128]),
        tail: *r.pick(&[0u32, 0, 0, 3, 700]),
        gap: *r.pick(&[0u32, 0, 0, 1, 40, 5000, 70_000]),
        tamper: *r.pick(&[0u8, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10]),
        place: r.below(7) as u8,
        at: r.u64() as u32,
        val: r.u64() as u32,
        r: rates,
        seed: r.u64() >> 12,
    })
    .unwrap()
}
fn big(h: &str) -> BigUint {
    BigUint::parse_bytes(h.as_bytes(), 16).unwrap()
}
fn rsa(plain: &[u8], n: &str, d: &str, len: usize) -> Vec<u8> {
    let mut v = BigUint::from_bytes_be(plain).modpow(&big(d), &big(n)).to_bytes_le();
    v.resize(len, 0);
    v
}
fn weak_sig(digest: &[u8]) -> Vec<u8> {
    weak_sig_but(digest, 0)
}
/// with one bit before the digest changed
fn weak_sig_but(digest: &[u8], flip: u32) -> Vec<u8> {
    let mut p = vec![0xffu8; 64];
    p[0] = 0;
    p[1] = 1;
    let info = [0x30, 0x20, 0x30, 0x0C, 0x06, 0x08, 0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10];
    p[29] = 0;
    p[30..48].copy_from_slice(&info);
    p[48..].copy_from_slice(digest);
    if flip != 0 {
        p[1 + (flip as usize / 8) % 47] ^= 1 << (flip % 8);
    }
    rsa(&p, WEAK_N, WEAK_D, 64)
}
fn strong_sig(digest: &[u8]) -> Vec<u8> {
    strong_sig_but(digest, 0)
}
fn strong_sig_but(digest: &[u8], flip: u32) -> Vec<u8> {
    let mut p = vec![0xbbu8; 256];
    p[0] = 0x0b;
    p[236..].copy_from_slice(digest);
    if flip != 0 {
        p[1 + (flip as usize / 8) % 235] ^= 1 << (flip % 8);
    }
    rsa(&p, STRONG_N, STRONG_D, 256)
}
fn weak_digest(arch: &[u8], s: usize, e: usize) -> Vec<u8> {
    let mut d = arch.to_vec();
    d[s..e].fill(0);
    Md5::digest(&d).to_vec()
}
fn run19(ctx: &mut Ctx, v: &Value) {
    let Ok(mut s) = serde_json::from_value::<S19>(v.clone()) else { return };
    let _ = mopaq::crypto::public_keys::SIM_MODULI.set((WEAK_N.into(), STRONG_N.into()));
    let weak = s.sig & 1 != 0;
    let strong = s.sig & 2 != 0;
    s.a.crc = false;
    if weak {
        s.a.files.push(FileSpec { name: "(signature)".into(), size: 72, kind: 0, cseed: 0, comp: 0, enc: 0, locale: 0, path: false });
    }
    if s.a.has_duplicates() {
        return;
    }
    s.a.put_sources("");
    // the archive, with room for the signature where the case wants it
    let mut pos = 0usize;
    for pass in 0..2 {
        let (st, r) = build(ctx, &s.a, "", "/w/out.mpq", plan(1));
        if !ctx.must_finish("build", &st) || !matches!(r, Some(Ok(()))) {
            return;
        }
        if !weak {
            break;
        }
        let c = cell();
        let c2 = c.clone();
        ctx.single(move || {
            let i = Archive::open("/w/out.mpq").ok().and_then(|a| a.find_file("(signature)").ok().flatten());
            set(&c2, i);
        });
        let Some(Some(i)) = take(&c) else { return };
        if i.compressed_size != 72 {
            return;
        }
        pos = i.file_pos as usize;
        let first = s.a.files[0].clone();
        if pass == 1 || s.edge == 0 || first.name != "filler.bin" {
            break;
        }
        let target = (pos + 1).next_multiple_of(65536) - s.edge as usize;
        s.a.files[0].size = (first.size + target as u64).saturating_sub(pos as u64);
    }
    let mut ar = sim().fs.get("/w/out.mpq").unwrap_or_default();
    if s.gap > 0 && ar.len() > 300 && ar[12..14] == [0, 0] {
        ar.extend((0..s.gap.min(1 << 20)).map(|i| (i % 247) as u8));
        let n = (ar.len() as u32).to_le_bytes();
        ar[8..12].copy_from_slice(&n);
        feat("data behind the tables");
    }
    let n = ar.len();
    if n < 300 {
        return;
    }
    if weak {
        let d = weak_digest(&ar, pos, pos + 72);
        ar[pos + 8..pos + 72].copy_from_slice(&weak_sig(&d));
        feat("weak signature");
    }
    let mut tail = vec![];
    if strong {
        tail.extend_from_slice(b"NGIS");
        tail.extend_from_slice(&strong_sig(&Sha1::digest(&ar)));
        feat("strong signature");
    }
    let extra: Vec<u8> = (0..s.tail).map(|i| (i % 251) as u8).collect();
    let units = (s.units as usize).min(4096) * 512;
    let make = |ar: &[u8], tail: &[u8]| {
        let mut f: Vec<u8> = (0..units).map(|i| (i * 7 % 253) as u8).collect();
        f.extend_from_slice(ar);
        f.extend_from_slice(tail);
        f.extend_from_slice(&extra);
        f
    };
    let whole = make(&ar, &tail);
    // tampering: weak_ok / strong_ok say whether that signature still matches what it covers
    let (mut weak_ok, mut strong_ok) = (weak, strong);
    let mut bad = ar.clone();
    let mut btail = tail.clone();
    let mut cut = None;
    let mut rr = Rng::new(s.seed);
    let frac = |f: u32, n: usize| (f as u64 * n as u64 >> 32) as usize;
    let at = match s.place {
        1 => frac(s.at, 32),
        2 if weak => pos - 1 - frac(s.at, 4),
        3 if weak => (pos + 72 + frac(s.at, 4)).min(n - 1),
        4 if n > 65536 => (65534 + frac(s.at, 4)).min(n - 1),
        5 => n - 1 - frac(s.at, 8),
        6 => n - 1 - frac(s.at, 290.min(n)),
        _ => frac(s.at, n),
    };
    match s.tamper {
        1 => bad[at] ^= 1 << (s.val % 8),
        2 => {
            let e = (at + 1 + (s.val % 300) as usize).min(n);
            bad[at..e].iter_mut().for_each(|b| *b = if s.val & 512 == 0 { 0 } else { rr.u64() as u8 });
        }
        3 => cut = Some(units + at),
        4 => {
            if weak && (!strong || s.val & 256 == 0) {
                bad[pos + 8 + (s.val as usize / 512) % 64] ^= 1 << (s.val % 8);
            } else if strong {
                btail[4 + (s.val as usize / 512) % 256] ^= 1 << (s.val % 8);
            }
        }
        5 => {
            // signed, but something else
            let mut other = ar.clone();
            other[at] ^= 1 << (s.val % 8);
            if weak {
                let d = weak_digest(&other, pos, pos + 72);
                bad[pos + 8..pos + 72].copy_from_slice(&weak_sig(&d));
            }
            if strong {
                btail.truncate(4);
                btail.extend_from_slice(&strong_sig(&Sha1::digest(&other)));
            }
        }
        6 => {
            if weak {
                let mut d = weak_digest(&ar, pos, pos + 72);
                d[(s.val as usize / 8) % 16] ^= 1 << (s.val % 8);
                bad[pos + 8..pos + 72].copy_from_slice(&weak_sig(&d));
            }
            if strong {
                let mut d = Sha1::digest(&bad).to_vec();
                d[(s.val as usize / 8) % 20] ^= 1 << (s.val % 8);
                btail.truncate(4);
                btail.extend_from_slice(&strong_sig(&d));
            }
        }
        7 => {
            let b = *[0u8, 0xff, 1].get(s.val as usize % 3).unwrap();
            if weak {
                bad[pos + 8..pos + 72].fill(b);
            }
            if strong {
                btail[4..].fill(b);
            }
        }
        10 => {
            let f = (s.val >> 4).max(1);
            if weak {
                let d = weak_digest(&ar, pos, pos + 72);
                bad[pos + 8..pos + 72].copy_from_slice(&weak_sig_but(&d, f));
            }
            if strong {
                btail.truncate(4);
                btail.extend_from_slice(&strong_sig_but(&Sha1::digest(&bad), f));
            }
        }
        8 => {
            let b = frac(s.val, n);
            bad.swap(at, b);
        }
        9 => {
            if s.val & 1 == 0 {
                bad.insert(at, s.val as u8);
                bad.pop();
            } else {
                bad.remove(at);
                bad.push(0);
            }
        }
        _ => {}
    }
    if weak {
        let mask = |d: &[u8]| {
            let mut d = d.to_vec();
            d[pos..pos + 72].fill(0);
            d
        };
        weak_ok &= cut.is_none() && mask(&bad) == mask(&ar) && bad[pos + 8..pos + 72] == ar[pos + 8..pos + 72];
    }
    if strong {
        strong_ok &= cut.is_none() && bad == ar && btail == tail;
    }
    let mut damaged = make(&bad, &btail);
    if let Some(c) = cut {
        damaged.truncate(c);
    }
    let changed = damaged != whole;
    let st = ctx.single(move || {
        let verdict = |a: &mut Archive| guard(|| a.verify_signature());
        let faulty = s.r.read_err > 0 || s.r.meta_err > 0;
        // what a sound verdict can be on the signed archive
        let best = if strong {
            SignatureStatus::StrongValid
        } else if weak {
            SignatureStatus::WeakValid
        } else {
            SignatureStatus::None
        };
        simos::without(|| sim().fs.put("/w/signed.mpq", &whole));
        let mut open = None;
        for round in 0..3 {
            let faulty = faulty && round < 2;
            simos::phase(Plan { seed: s.seed ^ round, rates: if round == 2 { Default::default() } else { s.r.rates() }, ..Default::default() });
            if open.is_none() {
                open = match guard(|| Archive::open("/w/signed.mpq")) {
                    Some(Ok(x)) => Some(x),
                    Some(Err(e)) => {
                        if !faulty {
                            return fail(&format!("open-error {}", kindof(&e)), format!("signed archive refused: {}", e));
                        }
                        None
                    }
                    None => return,
                };
            }
            let Some(a) = open.as_mut() else { continue };
            match verdict(a) {
                None => return,
                Some(Ok(x)) if x == best => feat("untouched archive judged right"),
                Some(Ok(x)) => {
                    let claims = matches!(x, SignatureStatus::WeakValid | SignatureStatus::StrongValid);
                    if claims && !(x == SignatureStatus::WeakValid && weak) {
                        fail("false-valid", format!("an archive without such a signature is reported as {:?}", x));
                    } else if !faulty {
                        fail(&format!("wrong-verdict {:?} {:?}", best, x), format!("an untouched archive ({:?}) is reported as {:?} without any read error", best, x));
                    } else {
                        feat("no verdict under fault");
                    }
                }
                Some(Err(e)) => {
                    if !faulty {
                        fail(&format!("verify-error {}", kindof(&e)), format!("no verdict without any read error: {}", e));
                    } else {
                        feat("refused under fault");
                    }
                }
            }
        }
        if !changed {
            return;
        }
        // tampered with, freshly opened or under the open handle
        simos::without(|| {
            sim().fs.put("/w/bad.mpq", &damaged);
            *sim().counts.entry("medium_damage".into()).or_insert(0) += 1;
        });
        for round in 0..2 {
            simos::phase(Plan { seed: s.seed ^ (8 + round), rates: if round == 1 { Default::default() } else { s.r.rates() }, ..Default::default() });
            let Some(r) = guard(|| Archive::open("/w/bad.mpq")) else { return };
            let Ok(mut a) = r else {
                feat("tampered archive refused");
                continue;
            };
            match verdict(&mut a) {
                None => return,
                Some(Ok(x)) => match x {
                    SignatureStatus::WeakValid if !weak_ok => fail(&format!("tampered-valid weak {}", s.tamper), format!("the weak signature of a changed archive (change {} at offset {}, signature at {}) is reported as valid", s.tamper, at, pos)),
                    SignatureStatus::StrongValid if !strong_ok => fail(&format!("tampered-valid strong {}", s.tamper), format!("the strong signature of a changed archive (change {} at offset {}) is reported as valid", s.tamper, at)),
                    _ => feat(&format!("tampered archive judged {:?}", x)),
                },
                Some(Err(_)) => feat("tampered archive without verdict"),
            }
        }
    });
    ctx.must_finish("verify", &st);
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C19", gen: gen19, run: run19, quick: 25000, rule: "an archive is signed with the harness's keys (hook), verified under split, interrupted and failing reads, then tampered with and verified again; non-trivial: a verdict was reached", real: REAL_LIB, stub: &["operating system: file system, clock, random source (simos)", "Blizzard's signature keys (replaced by the harness's own through the guarded hook)"], assume: ASSUME }]
}
