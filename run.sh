#!/bin/bash
# run.sh <iri|core|...> <property>   check one property (VERIF_SEED, VERIF_TIER from the environment)
# run.sh <iri|core|...> --build      build only
# run.sh <iri|core|...> --replay <file>
# Builds from /repo's current working tree; nothing is written in /repo.
group=${1:?group}; id=${2:?property}
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS PROPTEST_CASES PROPTEST_RNG_SEED PROPTEST_MAX_SHRINK_ITERS
export CARGO_TARGET_DIR=$root/target/$group
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.run.lock"; flock 9
cd "$root/harness/$group" || exit 2
# Cargo decides freshness by file times; a changed tree with old times must be rebuilt all the same.
hash=$(cd /repo && find Cargo.toml rdftk_*/Cargo.toml rdftk_*/src -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.pest' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/.srchash" 2>/dev/null)" != "$hash" ]; then
  for c in rdftk_iri rdftk_names rdftk_core rdftk_io cli-checks; do
    cargo clean -q --release --offline -p $c >/dev/null 2>&1
  done
fi
if ! cargo build -q --release --offline 2>"$CARGO_TARGET_DIR/build.log"; then
  cat "$CARGO_TARGET_DIR/build.log" >&2
  echo "ERROR: the checks do not build against /repo" >&2
  exit 2
fi
echo "$hash" > "$CARGO_TARGET_DIR/.srchash"
flock -u 9
bin=$CARGO_TARGET_DIR/release/$group-checks
case $id in
  --build) exit 0;;
  --replay) exec "$bin" replay "${3:?file}";;
esac
ulimit -c 0
if [ "${VERIF_TIER:-quick}" = thorough ]; then t=21600; else t=840; fi
timeout -k 10 $t "$bin" check "$id"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then echo "ERROR: $id ended with status $rc" >&2; fi
exit $rc
