#!/bin/bash
# Runs the history in demo.c against the PDC sources in the current directory: exit 0 if it behaves, 1 if not.
here=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$B"' EXIT
v=def
[ -f "$here/asan" ] && v=asan
PDC_REPO=$PWD VERIF_BUILD=$B python3 "$here/tools/build.py" simrun-$v server-$v.so client-$v-demo.so || exit 2
cd "$B" || exit 2
args=$(cat "$here/args" 2>/dev/null)
timeout 200 ./simrun-$v ./server-$v.so ./client-$v-demo.so out=o.json env:PDC_SERVER_CACHE_FLUSH_FREQUENCY_S=1 $args > log.txt 2>&1
python3 - <<'P'
import json, sys
d = json.load(open("o.json"))
for v in d["violations"]:
    print(v["key"], ":", v["message"])
print(d["executions"], "executions")
sys.exit(1 if d["violations"] else (0 if d["executions"] else 2))
P
