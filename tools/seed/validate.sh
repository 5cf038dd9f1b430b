#!/bin/bash
# validate.sh <id>: confirm that a planted bug builds, passes the stable tests, and that its demo tells.
id=$1; d=/verif/seeded/$id
rm -rf /tmp/seedwt; cp -a /repo /tmp/seedwt; cd /tmp/seedwt
(bash $d/demo.sh > /tmp/seed.$id.base 2>&1); b=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
(bash $d/demo.sh > /tmp/seed.$id.bug 2>&1); m=$?
. /opt/vp/env.sh 2>/dev/null
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/seedwt/target
cargo test --offline --workspace --all-features --no-fail-fast > /tmp/seed.$id.test 2>&1
p=$(grep -cE '^test .* \.\.\. ok' /tmp/seed.$id.test); f=$(grep -cE '^test .* \.\.\. FAILED' /tmp/seed.$id.test)
echo "$id: demo base=$b bug=$m tests ok=$p failed=$f"
rm -rf /tmp/seedwt
