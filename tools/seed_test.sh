#!/bin/bash
# seed_test.sh SEED [CHECK...]: try a planted bug on a private overlay of /repo.
# Prints one line: builds? stable tests? demo (clean/patched), check verdicts.
# Needs the privilege to unshare mounts; /repo itself is not touched.
id=$1; shift
S=/verif/seeded/$id
W=${SCRATCH:-/tmp/seedwork}/$id
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CH="${*:-$P}"
mkdir -p "$W/u" "$W/w" || exit 2
export id S W P CH
unshare -m bash -c '
mount -t overlay overlay -o lowerdir=/repo,upperdir="$W/u",workdir="$W/w" /repo || exit 2; cd /repo
bash /opt/vp/build.sh > "$W.build" 2>&1
bash "$S/demo.sh" > "$W.d0" 2>&1; d0=$?
git apply "$S/patch.diff" || { echo "$id APPLY-FAILED"; exit; }
bash /opt/vp/build.sh > "$W.build" 2>&1 || { echo "$id BUILD-FAILED"; tail -3 "$W.build"; exit; }
t=skip
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh "$W.json" > "$W.test" 2>&1
t=$(python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; r=json.load(open("$W.json"))
p=r.get("passed", []); p=p if isinstance(p, list) else list(p)
print("ok" if all(x in p for x in b) else "FAIL:"+",".join(x for x in b if x not in p))
PY
)
fi
bash "$S/demo.sh" > "$W.d1" 2>&1; d1=$?
r=""
for c in $CH; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 /verif/check.py $c --tier quick > "$W.chk.$c" 2>&1; rc=$?
  r="$r $c:$rc:$(grep -c "^VIOLATION property=$c" "$W.chk.$c")"
done
echo "$id tests=$t demo0=$d0 demo1=$d1 checks=$r"
'
rm -rf -- "$W"
