#!/bin/bash
# Exit 0: the property holds here; anything else: it does not.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
pkg=@PKG@
printf '{"Replace":{"%s":"%s"}}' "$PWD/$pkg/zz_demo_test.go" "$here/demo_test.go.txt" > "$tmp/o.json"
TMPDIR=$tmp go test -count=1 -timeout 250s @FLAGS@ -overlay "$tmp/o.json" -run '^TestZZDemo' "./$pkg"
