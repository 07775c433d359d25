#!/bin/bash
# check.sh PROPERTY          build from /repo's working tree and decide one property
# check.sh replay FILE       rebuild and replay a recorded violation (exit 1: reproduced)
# check.sh build             only build
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough, default quick)
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 3
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p "$here/target"
log="$here/target/build.$$.log"
if ! (cd "$here/sim" && cargo build --release --offline --locked) >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "check.sh: the simulator does not build against /repo" >&2
  exit 3
fi
rm -f "$log"
bin="$here/target/release/zipsim"
scratch_root=/dev/shm
[ -w "$scratch_root" ] || scratch_root="${TMPDIR:-/tmp}"
ZIPSIM_SCRATCH="$(mktemp -d "$scratch_root/zipsim.XXXXXX")" || exit 3
export ZIPSIM_SCRATCH
trap 'rm -rf -- "$ZIPSIM_SCRATCH"' EXIT
case "${1:-}" in
  build) exit 0 ;;
  replay) "$bin" replay "$2"; exit $? ;;
  C[0-9]*) "$bin" check "$1" "${VERIF_SEED:-1}" "${VERIF_TIER:-quick}" "$here"; exit $? ;;
  *) echo "usage: check.sh PROPERTY | replay FILE | build" >&2; exit 3 ;;
esac
