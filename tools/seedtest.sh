#!/bin/bash
# seedtest.sh [--check-only|--demo-only] ID... : try planted bugs in private copies of /repo and /verif
# (bind-mounted over the real paths in a namespace of their own)
W=${SEEDW:-/tmp/seed}
mode=all
case $1 in --*) mode=${1#--}; shift;; esac
mkdir -p $W/logs
[ -d $W/repo ] || cp -a /repo $W/repo
git -C $W/repo fetch -q /repo HEAD 2>/dev/null; git -C $W/repo checkout -q -- .; git -C $W/repo reset -q --hard "$(git -C /repo rev-parse HEAD)"
mkdir -p $W/verif && rsync -a --delete --exclude build --exclude target --exclude seeded /verif/ $W/verif/
mkdir -p $W/vp && cp -a /opt/vp/. $W/vp/
for id in "$@"; do
  export id mode W
  cp -a /verif/seeded/$id $W/cur.$id
  unshare -Urm bash -c '
    mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/vp /opt/vp
    cd /repo; git checkout -q -- .
    prop=$(python3 -c "import json;print(json.load(open(\"$W/cur.$id/meta.json\"))[\"property\"])")
    d0=- ; d1=- ; t=- ; c=-
    if [ $mode != check-only ]; then bash $W/cur.$id/demo.sh > $W/logs/$id.demo0 2>&1; d0=$?; fi
    git apply $W/cur.$id/patch.diff || { echo "$id: patch does not apply"; exit; }
    if [ $mode = all ]; then
      bash /opt/vp/build.sh > $W/logs/$id.build 2>&1 || { echo "$id: does not build"; git checkout -q -- .; exit; }
      bash /opt/vp/test.sh $W/logs/$id.json > $W/logs/$id.test 2>&1
      t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); b=b[\"stable\"]
p=set(json.load(open(\"$W/logs/$id.json\"))[\"passed\"]); m=[x for x in b if x not in p]
print(\"ok\" if not m else \"LOST \"+str(m[:3]))")
    fi
    if [ $mode != check-only ]; then bash $W/cur.$id/demo.sh > $W/logs/$id.demo1 2>&1; d1=$?; fi
    if [ $mode != demo-only ]; then
      s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick python3 /verif/check.py $prop > $W/logs/$id.check 2>&1; c=$?; e=$(( $(date +%s) - s ))
    fi
    echo "$id $prop demo0=$d0 demo1=$d1 tests=$t check=$c (${e}s) $(grep -h VIOLATION $W/logs/$id.check 2>/dev/null | sed s/.*replay=[^[:space:]]*//)"
    git checkout -q -- .
  '
  rm -rf "$W/cur.$id"
done
