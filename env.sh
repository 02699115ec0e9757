# Sourced by the scripts of /verif.
export RUSTUP_TOOLCHAIN=1.86-x86_64-unknown-linux-gnu
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
