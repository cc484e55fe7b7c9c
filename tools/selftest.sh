#!/bin/bash
# Tests the scheduler and the race mode with small programs known to be right or wrong (selftest/self.go).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
d=$(mktemp -d)
cp -a /repo "$d/repo"
mkdir "$d/repo/internal/zzself"
cp "$here/tools/selftest/self.go" "$d/repo/internal/zzself/self.go"
ZZ_REPO=$d/repo "$here/bin/check" SELF "$@"
rc=$?
rm -rf "$d"
exit $rc
