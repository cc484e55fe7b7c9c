#!/bin/bash
# Exit 0: the property holds here; anything else: it does not.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
bin=$(mktemp -d)
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/" ./cmd/... || exit 1
python3 "$here/demo.py" "$bin"
