#!/bin/bash
# Builds the harness against /repo's current working tree. Offline.
set -eu
cd "$(dirname "$0")"
export HOME=${HOME:-/root}
H=$(find /repo/crates /repo/Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
mkdir -p target
E2=(env -u RUSTC_WRAPPER -u CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN=1.84-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true "RUSTFLAGS=--cfg hudi_verif -Clink-arg=-fuse-ld=lld")
cd harness
if [ -f ../target/.repo-hash ] && [ "$(cat ../target/.repo-hash)" != "$H" ]; then
  # the sources changed: do not rely on file times
  "${E2[@]}" cargo clean --offline -p hudi-core -p hudi-datafusion >/dev/null 2>&1 || true
fi
rm -f /verif/target/.repo-hash
"${E2[@]}" cargo build --offline "$@"
echo "$H" > /verif/target/.repo-hash
