#!/bin/bash
# seed_verify.sh <id>...: in a scratch copy of /repo, checks that a planted bug builds, passes the
# tests in BASELINE.json, and that its demo passes without and fails with it.
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
w=/tmp/fp-seed-verify
mkdir -p $w
[ -d $w/repo ] || git clone -q /repo $w/repo
git -C $w/repo fetch -q /repo HEAD && git -C $w/repo checkout -q -f FETCH_HEAD
for id in "$@"; do
    s=$here/seeded/$id
    cd $w/repo && git checkout -q -f FETCH_HEAD
    CARGO_TARGET_DIR=$w/target bash "$s/demo.sh" >$w/demo0.log 2>&1; a=$?
    if ! git apply "$s/patch.diff"; then echo "$id: patch does not apply"; continue; fi
    CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUNNER=/opt/vp/cfg/fixed-clock.sh CARGO_TARGET_DIR=$w/target \
        cargo nextest run --workspace --release --offline --run-ignored all \
        --tool-config-file vp:/opt/vp/cfg/nextest.toml --profile vp --test-threads 8 --no-fail-fast >$w/tests.log 2>&1
    sum=$(grep -E "Summary" $w/tests.log; grep -E "^ +FAIL " $w/tests.log | sort -u | awk '{print $NF}' | tr '\n' ' ')
    CARGO_TARGET_DIR=$w/target bash "$s/demo.sh" >$w/demo1.log 2>&1; b=$?
    echo "$id: demo clean=$a patched=$b | $sum"
    git checkout -q -f FETCH_HEAD
done
