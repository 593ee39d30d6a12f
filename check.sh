#!/bin/bash
# check.sh ID [quick|thorough]   run a property's monitor against /repo's working tree
# check.sh --replay FILE         run a recorded case again
# Exit: 0 held, 1 violated (VIOLATION line), 2 no answer (build failure, harness error).
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_LOG
log=$(mktemp)
trap 'rm -f "$log" "$log.plain"' EXIT
# Cargo goes by modification times; go by content instead.
mkdir -p "$here/target"
hash=$(cd /repo && git ls-files -z -co --exclude-standard | xargs -0 -r sha256sum 2>/dev/null | sha256sum)
cargo=(--offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/target")
if [ "$(cat "$here/target/repo.hash" 2>/dev/null)" != "$hash" ]; then
  for profile in release plain; do
    cargo clean -q --profile $profile "${cargo[@]}" \
      -p llvm-bitcursor -p llvm-bitstream -p llvm-support -p llvm-mapper -p molluscmon >/dev/null 2>&1
  done
  echo "$hash" >"$here/target/repo.hash"
fi
# With overflow checks and debug assertions, and without.
cargo build --profile plain --locked --features cli "${cargo[@]}" >"$log.plain" 2>&1 &
if ! cargo build --profile release --locked --features cli "${cargo[@]}" >"$log" 2>&1 || ! wait $!; then
  wait
  cat "$log" "$log.plain" >&2
  echo "error: the harness doesn't build against /repo" >&2
  exit 2
fi
bin=$here/target/release/molluscmon
export MON_VERIF=$here MON_BIN=$here/target/release MON_PLAIN=$here/target/plain
case ${1-} in
  --build) exit 0 ;;
  --replay) exec "$bin" replay "$2" ;;
  *) "$bin" run "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}" ;;
esac
