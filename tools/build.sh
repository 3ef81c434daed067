#!/bin/bash
# Builds target/debug/mc (models + /repo's library) and, for the checks that need
# it, target/debug/papyri (the command) and target/shim.so (the syscall shim).
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
ID=${1:-all}
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER= RUST_BACKTRACE=0
export RUSTFLAGS="-A dependency_on_unit_never_type_fallback -A warnings"
export CARGO_TARGET_DIR=$V/target
mkdir -p "$V/target"
exec 9>"$V/target/.build.lock"; flock 9
# never trust mtimes: when the sources differ from those of the last build, drop the crate's build record
sum=$( (cd /repo && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$V/target/.repo-sum" 2>/dev/null)" != "$sum" ]; then
  for d in "$V"/target/debug/.fingerprint/papyri-lang-*; do [ -d "$d" ] && rm -rf "$d"; done
  echo "$sum" > "$V/target/.repo-sum"
fi
log=$V/target/build.log
cargo build --locked --offline --manifest-path "$V/harness/mc/Cargo.toml" --bin mc >"$log" 2>&1 || { grep -E "^error" -A12 "$log" | head -60 >&2; exit 2; }
case $ID in
  all|C12|C13|C14|C15|C16|C17|C18|C20|C21|C23|C24)
    CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only \
    cargo build --locked --offline --manifest-path /repo/Cargo.toml --bin papyri >"$log" 2>&1 || { grep -E "^error" -A12 "$log" | head -60 >&2; exit 2; }
    if [ -f "$V/shim/shim.c" ]; then
      if [ ! -f "$V/target/shim.so" ] || [ "$V/shim/shim.c" -nt "$V/target/shim.so" ]; then
        gcc -O1 -shared -fPIC -o "$V/target/shim.so" "$V/shim/shim.c" -ldl -lpthread || exit 2
      fi
    fi ;;
esac
exit 0
