#!/bin/bash
# seedtest.sh ID...: confirms planted changes in a scratch copy: builds, passes the stable tests, the demo tells them apart.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
S=/tmp/seedwork
[ -d $S/repo ] || { mkdir -p $S; cp -a /repo $S/repo; }
cd $S/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
for id in "$@"; do
  D=/verif/seeded/$id; r=ok
  git checkout -q -- .
  if [ -z "$SKIP_CLEAN" ]; then bash $D/demo.sh >$S/clean.log 2>&1; c=$?; [ $c = 0 ] || r="demo fails on the unchanged tree ($c)"; fi
  git apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  cargo build --workspace --offline -q >$S/build.log 2>&1 || r="$r; build fails"
  cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >$S/test.log 2>&1
  python3 /opt/vp/results.py $S/out.json cargo:$S/test.log >/dev/null
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/out.json'))
def names(x):
    for k in ('stable','passed','tests','pass'):
        if k in x and isinstance(x[k],list): return set(x[k])
    return set()
print(len(names(b)-names(o)))
P
)
  [ "$t" = 0 ] || r="$r; $t stable tests fail"
  bash $D/demo.sh >$S/demo.log 2>&1; d=$?
  [ $d != 0 ] || r="$r; demo does not notice"
  [ $d != 3 ] || r="$r; demo cannot run"
  echo "$id: $r (demo with the change: exit $d)"
  git checkout -q -- .
done
