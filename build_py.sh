#!/bin/bash
# Builds the Python package from /repo's working tree into target/pypkg (for C20). Offline.
set -eu
cd "$(dirname "$0")"
export HOME=${HOME:-/root}
mkdir -p target/pypkg
[ -f /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock
H=$(find /repo/crates /repo/python /repo/Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
E2=(env -u RUSTC_WRAPPER -u CARGO_BUILD_TARGET -u VIRTUAL_ENV -u PYO3_PYTHON -u PYTHONPATH RUSTUP_TOOLCHAIN=1.84-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=/verif/target/py CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only "RUSTFLAGS=-Clink-arg=-fuse-ld=lld")
if [ -f target/.py-hash ] && [ "$(cat target/.py-hash)" != "$H" ]; then
  (cd /repo && "${E2[@]}" cargo clean --offline -p hudi-core -p hudi -p hudi-python >/dev/null 2>&1) || true
fi
rm -f /verif/target/.py-hash
(cd /repo && "${E2[@]}" cargo build --offline -p hudi-python --lib)
rm -rf /verif/target/pypkg/hudi
mkdir -p target/pypkg/hudi
(cd /repo/python/hudi && find . -name '*.py' -print0 | xargs -0 cp --parents -t /verif/target/pypkg/hudi)
cp target/py/debug/libhudi.so target/pypkg/hudi/_internal.abi3.so
echo "$H" > /verif/target/.py-hash
