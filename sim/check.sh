#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's working tree
# check.sh replay FILE                 run one recorded execution again
set -u
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local TZ=UTC
here=$(cd "$(dirname "$0")" && pwd)
verif=$(dirname "$here")
tmp=$(mktemp -d) || exit 2
(cd "$here/vsim" && go build -o "$tmp/vsim" .) || { rm -rf "$tmp"; exit 2; }
case "$1" in
build) "$tmp/vsim" -verif "$verif" -repo "${REPO:-/repo}" -mode build ;;
replay) "$tmp/vsim" -verif "$verif" -repo "${REPO:-/repo}" -mode replay -file "$2" ;;
selftest) "$tmp/vsim" -verif "$verif" -repo "${REPO:-/repo}" -mode selftest -prop "${2:-}" ;;
*) "$tmp/vsim" -verif "$verif" -repo "${REPO:-/repo}" -mode check -prop "$1" -tier "${2:-quick}" ${VSIM_SECONDS:+-seconds $VSIM_SECONDS} ${VSIM_WORK:+-work $VSIM_WORK} ;;
esac
rc=$?
rm -rf "$tmp"
exit $rc
