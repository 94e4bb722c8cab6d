#!/bin/bash
# rustc stand-in used for the workspace's dependencies: nightly rustc (the one
# with rustc-dev) presenting itself as a stable release, so that the pinned
# crates' build scripts do not switch on nightly features that have since gone.
SYSROOT=${OROV_SYSROOT:?}
R=$SYSROOT/bin/rustc
export RUSTC_BOOTSTRAP=-1
[ "$CARGO_PKG_NAME" = wasm-bindgen ] && export CARGO_PKG_VERSION_PATCH=99 CARGO_PKG_VERSION=0.2.99
args=()
for a in "$@"; do case "$a" in
 -vV|--version|-V|-Vv) $R "$@" | sed 's/-nightly//'; exit;;
 */time-0.3.29/src/lib.rs)
   # time 0.3.29 does not compile with rustc >= 1.80 (type inference); same code, one annotation
   d=$CARGO_TARGET_DIR/patched; mkdir -p "$d"; rm -rf "$CARGO_TARGET_DIR/patched/time-0.3.29"; cp -r "${a%/src/lib.rs}" "$d/"
   sed -i "s/^    let items = format_items$/    let items: Box<[format_item::Item<'_>]> = format_items/; s/collect::<Result<Box<_>, _>>()?;/collect::<Result<_, _>>()?;/" "$d/time-0.3.29/src/format_description/parse/mod.rs"
   a=$d/time-0.3.29/src/lib.rs;;
esac; args+=("$a"); done
exec "$R" "${args[@]}"
