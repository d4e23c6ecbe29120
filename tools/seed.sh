#!/bin/bash
# usage: seed.sh <seeded id> [confirm|check|all] [duration]
# confirm: the planted change builds, passes the stable tests, and its demo
# tells it from the unchanged tree. check: runs the property's check on it.
# Everything happens in a scratch copy.
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1 what=${2:-all} dur=${3:-}
S=$V/seeded/$id
W=$(mktemp -d /tmp/seedXXXXXX)
trap 'rm -rf "$W"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
cp -a /repo "$W/repo"
git -C "$W/repo" checkout -q -- .
if [ $what != check ]; then
	(cd "$W/repo" && go build -trimpath -buildvcs=false -o bin/sigtool-demo ./src; bash "$S/demo.sh" >"$W/d0" 2>&1) && echo "demo unchanged: ok" || { echo "demo FAILS on unchanged tree"; cat "$W/d0"; exit 1; }
fi
git -C "$W/repo" apply "$S/patch.diff" || exit 1
if [ $what != check ]; then
	(cd "$W/repo" && go build ./... && go vet ./sign ./src >/dev/null 2>&1; go test -json -vet=off -count=1 ./... > "$W/go.json"; go build -trimpath -buildvcs=false -o "$W/sigtool" ./src &&
	 timeout 300 bash ./tests.sh bin="$W/sigtool" tmpdir="$W/rt" </dev/null >"$W/sh.log" 2>&1 && echo "PASS tests.sh" || echo "FAIL tests.sh"
	 python3 - "$W/go.json" <<'P'
import json,sys
b=json.load(open("/opt/vp/BASELINE.json"))
res={}
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except: continue
    if d.get("Test") and d["Action"] in("pass","fail"): res[d["Test"]]=d["Action"]
print("go tests:",{k:v for k,v in res.items() if v!="pass"} or "all %d pass"%len(res))
P
	)
	(cd "$W/repo" && bash "$S/demo.sh" >"$W/d1" 2>&1) && { echo "demo passes WITH patch: bad"; cat "$W/d1"; } || { echo "demo with patch: fails as it should:"; tail -3 "$W/d1"; }
fi
if [ $what != confirm ]; then
	p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$S/meta.json")
	for q in ${SEED_PROPS:-$p}; do
		mkdir -p "$W/ev"
		VERIF_REPO=$W/repo VERIF_BUILD=$W/b VERIF_EVIDENCE=$W/ev VERIF_DUR=$dur "$V/check" $q quick > "$W/out" 2>&1
		r=$?
		echo "check $q: exit $r"; grep -a -E 'VIOLATION|KNOWN|build failed' "$W/out" | head -3; grep -a -i -E 'message|kind' "$W/out" | head -3; [ $r = 0 ] && tail -2 "$W/out"
		rp=$(grep -a -o 'replay=[^ ]*' "$W/out" | head -1 | cut -d= -f2); [ -n "$rp" ] && { python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print("   ",d.get("kind"),":",str(d.get("msg"))[:300])' "$rp" 2>/dev/null || python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print("   ",d.get("kind"),":",str(d.get("msg"))[:300])' "$V/$rp"; rm -f "$V/$rp"; }
	done
fi
