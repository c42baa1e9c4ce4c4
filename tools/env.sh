export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${VERIF_ROOT:-$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)}/build/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
export Ankr_Api_Key=ankrkey Llama_Api_Key=llamakey
