# Writes /verif/seeded/ID from the changes made in a scratch copy of /repo.
# usage: mkseed.py ID PROP NEEDS BREAKS < main.go   (scratch copy: $SEED_REPO)
import json, os, subprocess, sys
id, prop, needs, breaks = sys.argv[1:5]
repo = os.environ.get("SEED_REPO", "/tmp/seed")
d = f"/verif/seeded/{id}"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", repo, "diff"], text=True))
open(d + "/main.go", "w").write(sys.stdin.read())
open(d + "/demo.sh", "w").write('''#!/bin/bash
# Runs main.go against the tree in the current directory.
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
cp "$D/main.go" "$W/main.go"
printf 'module demo\\n\\ngo 1.18\\n\\nrequire gopkg.in/addrs.v1 v1.0.0\\n\\nreplace gopkg.in/addrs.v1 => %s\\n' "$R" > "$W/go.mod"
cd "$W" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local timeout 120 go run .
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
subprocess.call(["git", "-C", repo, "checkout", "-q", "--", "."])
