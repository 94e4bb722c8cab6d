#!/bin/bash
# facts.sh -> prints the directory holding the facts of /repo's current tree.
# Facts are keyed by the content of the tree and of the driver, so that several
# checks on one tree share one analysis build; any source change makes a new one.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${OROV_REPO:-/repo}
B=${OROV_BUILD:-$V/.build}
mkdir -p "$B"
exec 9>"$B/lock"; flock 9
export HOME=/root
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
export OROV_SYSROOT=$(RUSTUP_TOOLCHAIN=nightly rustc --print sysroot)
dk=$(sha256sum "$V/driver/main.rs" "$V/bin/rustc.sh" "$V/bin/wswrap.sh" | sha256sum | cut -c1-16)
export OROV_DRIVER=$B/orofacts-$dk
if [ ! -x "$OROV_DRIVER" ]; then
  (cd "$V/driver" && RUSTC_BOOTSTRAP=1 "$OROV_SYSROOT/bin/rustc" --edition 2021 -O --cap-lints allow main.rs -o "$OROV_DRIVER.tmp" >&2)
  mv "$OROV_DRIVER.tmp" "$OROV_DRIVER"
fi
key=$( (cd "$REPO" && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name 'Cargo.lock' -o -name '*.md' -o -name '*.json' -o -name '*.kdl' \) -print0 | sort -z | xargs -0 sha256sum; echo "$dk $REPO") | sha256sum | cut -c1-24)
D=$B/facts/$key
if [ ! -e "$D/ok" ]; then
  # keep the few newest only
  ls -1dt "$B"/facts/*/ 2>/dev/null | tail -n +12 | xargs -r rm -rf --
  mkdir -p "$D"
  T=$B/target
  for c in orogene oro nassun node-maintainer oro-client oro-common oro-config oro-npm-account oro-package-spec oro-pretty-json oro-script oro-shim-bin; do
    rm -rf "$T"/debug/.fingerprint/$c-[0-9a-f]*
  done
  (cd "$REPO" && env RUSTUP_TOOLCHAIN=1.72.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never OROFACTS_OUT="$D" \
     RUSTC="$V/bin/rustc.sh" RUSTC_WORKSPACE_WRAPPER="$V/bin/wswrap.sh" CARGO_TARGET_DIR="$T" \
     cargo check --workspace --locked --offline >"$D/log" 2>&1) || { cat "$D/log" >&2; exit 3; }
  touch "$D/ok"
fi
echo "$D"
