#!/bin/sh
# Builds the simulator against /repo's working tree. Prints nothing unless it fails.
# With the hooks of /repo if they compile, otherwise without them.
here=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN
log="$here/target/build.log"
mkdir -p "$here/target"
FPSIM_HOOKS=1 cargo build --offline --locked --release --manifest-path "$here/sim/Cargo.toml" \
    --target-dir "$here/target/hooks" --features hooks >"$log" 2>&1 && {
    ln -sf "$here/target/hooks/release/fpsim" "$here/target/fpsim"
    exit 0
}
FPSIM_HOOKS=0 cargo build --offline --locked --release --manifest-path "$here/sim/Cargo.toml" \
    --target-dir "$here/target/plain" >>"$log" 2>&1 && {
    echo "note: built without the hooks of /repo" >&2
    ln -sf "$here/target/plain/release/fpsim" "$here/target/fpsim"
    exit 0
}
tail -n 40 "$log" >&2
echo "fpsim: the build failed" >&2
exit 2
