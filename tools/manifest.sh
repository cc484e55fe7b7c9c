#!/bin/bash
# Rewrites /verif/MANIFEST.json from the table of checks.
set -e
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
. /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
d=$(mktemp -d)
(cd "$here/src/zz" && go build -o "$d/driver" ./cmd/driver)
"$d/driver" -verif "$here" -manifest
rm -f "$d/driver"; rmdir "$d"
python3-vt - "$here" <<'P'
import json,jsonschema,sys
jsonschema.validate(json.load(open(sys.argv[1]+'/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print("MANIFEST.json is valid")
P
