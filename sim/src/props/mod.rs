use serde_json::Value;
use simos::prng::Rng;
pub mod attr;
pub mod audio;
pub mod cli;
pub mod conc;
pub mod core;
pub mod damage;
pub mod ffi;
pub mod foreign;
pub mod hostile;
pub mod sign;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64, &str) -> Value,
    pub run: fn(&mut crate::run::Ctx, &Value),
    pub quick: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assume: &'static [&'static str],
}
pub const REAL_LIB: &[&str] = &["mopaq (all of it, unmodified)", "std, tempfile, flate2, bzip2, lzma-rs, pklib"];
pub const STUB_LIB: &[&str] = &["operating system: file system, clock, random source (simos)"];
pub const REAL_FFI: &[&str] = &["mopaq and storm-ffi (all of it, unmodified, atomics instrumented)", "std locks, LazyLock and thread-locals"];
pub const STUB_FFI: &[&str] = &["operating system: file system, clock, random source, thread scheduling (simos)"];
pub const REAL_CLI: &[&str] = &["storm-cli binary, mopaq and all their dependencies (unmodified)"];
pub const ASSUME: &[&str] = &[
    "std's file and lock calls reach the operating system only through the interposed libc entry points",
    "the simulated file system's power-loss model: data and metadata reach the disk in any order unless fsync orders them; rename is atomic",
];
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(attr::props());
    v.extend(audio::props());
    v.extend(cli::props());
    v.extend(core::props());
    v.extend(conc::props());
    v.extend(damage::props());
    v.extend(ffi::props());
    v.extend(foreign::props());
    v.extend(hostile::props());
    v.extend(sign::props());
    v
}
