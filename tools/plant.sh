#!/bin/bash
# plant.sh ID: confirms the planted change in /verif/seeded/ID (patch.diff,
# demo.sh) in a scratch copy of /repo: builds, passes the tests, and the demo
# tells them apart.
set -u
id=$1; S=/verif/seeded/$id
W=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
cd "$W/repo"; git checkout -q -- .
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
bash "$W/demo/demo.sh" >"$W/o0" 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$id: does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
go vet ./... >/dev/null 2>&1
t=$(go test ./... 2>&1 | grep -c "^FAIL\|^--- FAIL")
timeout 300 bash "$W/demo/demo.sh" >"$W/o1" 2>&1; b=$?
echo "$id: demo clean=$a patched=$b test failures=$t"
[ $a = 0 ] || tail -5 "$W/o0"
[ $a = 0 ] && [ $b != 0 ] && [ $t = 0 ]
