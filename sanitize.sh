#!/bin/bash
# sanitize.sh <thread|address> <property> <cases>: builds the harness and hudi-rs, with the standard library and all
# dependencies, under a sanitizer (nightly -Zbuild-std) and runs a check in it. Part of the thorough tier: the first
# build takes about 25 CPU minutes. Prints what it did; exit 1 if the sanitizer or the check reported something.
set -u
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
San=$1 Prop=$2 Cases=$3
Tool=nightly-x86_64-unknown-linux-gnu
D=/verif/target/san
mkdir -p "$D"
Std=$HOME/.rustup/toolchains/$Tool/lib/rustlib/src/rust/library
if [ ! -d "$Std/vendor" ]; then
  echo "sanitizer $San: not run, $Tool has no standard library sources here"
  exit 0
fi
# nightly's cargo does not read the registry index of the pinned toolchain: give it a directory of the same sources
if [ ! -f "$D/vendor/.done" ]; then
  python3 vendor_for_nightly.py "$D/vendor" harness/Cargo.lock "$Std" && touch "$D/vendor/.done" || exit 2
fi
F="--cfg hudi_verif -Zsanitizer=$San -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=-fuse-ld=lld --cap-lints allow"
if ! (cd harness && env -u RUSTC_WRAPPER RUSTUP_TOOLCHAIN=$Tool CARGO_TARGET_DIR="$D/$San" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS="$F" \
  cargo --config 'source.crates-io.replace-with="v"' --config "source.v.directory=\"$D/vendor\"" \
  build --offline --locked -Zbuild-std --target x86_64-unknown-linux-gnu) >"$D/build.log" 2>&1; then
  tail -20 "$D/build.log"
  echo "sanitizer $San: build failed"
  exit 2
fi
Log=/verif/replay/$Prop-$San-sanitizer.log
mkdir -p /verif/replay
HV_NO_EVIDENCE=1 HV_CASES=$Cases VERIF_TIER=quick HV_CAP=1500 TSAN_OPTIONS="exitcode=66 history_size=4" ASAN_OPTIONS="exitcode=66 detect_leaks=0" \
  "$D/$San/x86_64-unknown-linux-gnu/debug/hv" "$Prop" >"$Log" 2>&1
rc=$?
n=$(grep -cE "(WARNING: ThreadSanitizer|ERROR: AddressSanitizer)" "$Log")
echo "sanitizer $San: rc $rc, $n reports; $(grep -E "^$Prop:" "$Log" | tail -1)"
if [ "$n" -gt 0 ]; then
  grep -m3 SUMMARY "$Log"
  echo "VIOLATION property=$Prop replay=$Log"
  exit 1
fi
if [ "$rc" = 1 ]; then
  grep VIOLATION "$Log"
  exit 1
fi
[ "$rc" = 0 ] || exit 2
python3 - "$Prop" "$San" "$(grep -E "^$Prop:" "$Log" | tail -1)" <<'P'
import sys, json
p = f"/verif/evidence/{sys.argv[1]}.json"
e = json.load(open(p))
e["coverage"]["sanitizer_run_" + sys.argv[2]] = "no report in: " + sys.argv[3]
json.dump(e, open(p, "w"), indent=2)
P
