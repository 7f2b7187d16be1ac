#!/bin/bash
# seedcheck.sh ID [PROP...]: applies a planted change to a private overlay of /repo, runs the checks there.
id=$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
D=$(mktemp -d /tmp/seedov.XXXXXX); mkdir -p $D/{ru,rw,vu,vw}
unshare -m bash -c '
D=$1; id=$2; shift 2
mount -t overlay overlay -o lowerdir=/repo,upperdir=$D/ru,workdir=$D/rw /repo
mount -t overlay overlay -o lowerdir=/verif,upperdir=$D/vu,workdir=$D/vw /verif
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
for p in "$@"; do
  VERIF_SEED=1 timeout 900 /verif/sim/check.sh $p quick >$D/out 2>&1; c=$?
  echo "$id $p: exit $c $(grep -c VIOLATION $D/out) $(grep -a "minimised to" $D/out | cut -c1-260)"
done
if [ -n "$KEEP" ]; then cp $D/out $KEEP; cp -r /verif/replays* $KEEP.replays 2>/dev/null; fi
' _ $D $id $P
case $D in /tmp/seedov.*) rm -rf "$D";; esac
