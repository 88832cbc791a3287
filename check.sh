#!/bin/bash
# check.sh ID: decides one property on /repo's current source. Exit 0 or 1 only.
id=$1
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
bin=$here/bin/gnmicheck
fail() {
  mkdir -p "$here/evidence"
  echo "$1" | tee "$here/evidence/$id.violation.txt"
  echo "VIOLATION property=$id replay=$here/evidence/$id.violation.txt"
  exit 1
}
"$here/build.sh" || fail "the analyser does not build"
grep -E "^KNOWN-FINDING: property=$id " "$here/known_findings.txt"
timeout -k 5 800 "$bin" -repo /repo -evidence "$here/evidence" -tier "${VERIF_TIER:-quick}" "$id"
case $? in
  0) exit 0 ;;
  1) exit 1 ;;
  *) fail "the analysis did not finish" ;;
esac
