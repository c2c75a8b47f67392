#!/bin/bash
# seed.sh ID: confirms a planted bug in a scratch copy of /repo: applies, builds, stable tests pass,
# demo exits 0 without and nonzero with the patch
id=$1; S=/verif/seeded/$id
W=/tmp/seedcopy; export PATH=$PATH:/root/.cargo/bin RUST_BACKTRACE=0
[ -d $W ] || cp -a /repo $W
rsync -a --delete --exclude target --exclude .git /repo/src/ $W/src/
cd $W && git checkout -q -- . && git clean -fdq src
b() { CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$W/target CARGO_PROFILE_DEV_DEBUG=line-tables-only timeout 600 cargo test --workspace --offline --no-fail-fast "$@" >/tmp/seedlog 2>&1; }
git reset -q --hard; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
touch src/lib.rs; b --no-run || { echo "base build failed"; exit 1; }
bash $S/demo.sh >/tmp/seedout 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 /tmp/seedout; exit 1; }
git apply $S/patch.diff || { echo "$id: does not apply"; exit 1; }
touch src/lib.rs; b --no-run || { echo "$id: build failed"; tail -20 /tmp/seedlog; exit 1; }
bash $S/demo.sh >/tmp/seedout 2>&1; r=$?
tail -3 /tmp/seedout
b; P=$(grep -c '^test .* \.\.\. ok' /tmp/seedlog); F=$(grep -c '^test .* FAILED' /tmp/seedlog)
git checkout -q -- .
echo "$id: demo rc=$r with patch; tests ok=$P failed=$F"
