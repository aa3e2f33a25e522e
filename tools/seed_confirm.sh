#!/bin/bash
# seed_confirm.sh ID...: in a scratch copy of /repo, does the planted bug apply, build, keep the tests, and is it shown by its demo?
export HOME=/root LC_ALL=C.UTF-8
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
W=/tmp/seedw; rm -rf /tmp/seedw; mkdir -p $W; cp -a /repo $W/repo
cd $W/repo || exit 1
cp -a /verif/seeded $W/seeded
for id in "$@"; do
  git checkout -q -- . ; r=
  (bash $W/seeded/$id/demo.sh >$W/demo0.log 2>&1); [ $? = 0 ] || { r="$r demo-fails-unchanged"; tail -5 $W/demo0.log; }
  git apply $W/seeded/$id/patch.diff || r="$r no-apply"
  touch src/lib.rs build.rs
  if CARGO_TARGET_DIR=$W/repo/target cargo test --workspace --no-fail-fast --offline >$W/test.log 2>&1; then :; else r="$r tests-fail"; grep -E "^error|FAILED|failed" $W/test.log | head -8; fi
  p=$(grep -c '\.\.\. ok$' $W/test.log); [ "$p" = 118 ] || r="$r passed=$p"
  (bash $W/seeded/$id/demo.sh >$W/demo1.log 2>&1); x=$?; [ $x = 0 ] && r="$r demo-passes-with-bug"; [ $x = 98 ] && r="$r demo-build"
  git checkout -q -- .
  echo "$id: ${r:-confirmed} (demo with bug: $x)"
done
rm -rf /tmp/seedw
