#!/bin/bash
# run.sh <property> [--case N]: builds from /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
L=/verif/target/build.log
mkdir -p target
if ! bash ./build.sh >"$L" 2>&1; then
  tail -40 "$L"
  echo "build failed"
  exit 2
fi
if [ "${1:-}" = C20 ] && ! bash ./build_py.sh >"$L" 2>&1; then
  tail -40 "$L"
  echo "build of the Python package failed"
  exit 2
fi
if [ "${VERIF_TIER:-quick}" = thorough ] && [ $# = 1 ]; then
  /verif/target/debug/hv "$@" || exit $?
  case $1 in
    C10) exec bash sanitize.sh thread C10 3000 ;;
    C26) exec bash sanitize.sh thread C26 400 ;;
    C12) exec bash sanitize.sh address C12 6000 ;;
    C13) exec bash sanitize.sh address C13 6000 ;;
  esac
  exit 0
fi
exec /verif/target/debug/hv "$@"
