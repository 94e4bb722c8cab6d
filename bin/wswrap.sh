#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc.sh
rustc=$1; shift
for a in "$@"; do case "$a" in -vV|--version|-V|-Vv) exec "$rustc" "$@";; esac; done
export RUSTC_BOOTSTRAP=-1 LD_LIBRARY_PATH=$OROV_SYSROOT/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
exec "$OROV_DRIVER" rustc --sysroot "$OROV_SYSROOT" --cap-lints allow "$@"
