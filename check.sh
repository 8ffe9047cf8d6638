#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's working tree
# check.sh replay <file>                 run a replay file on /repo's working tree
# check.sh selftest                      show that seeds are exactly repeatable
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d /tmp/vsim.XXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
(cd "$here/sim" && GOFLAGS= go build -o "$work/vsim" ./cmd/vsim) || { echo "check.sh: the simulator does not build" >&2; exit 2; }
case "$1" in
replay) "$work/vsim" replay -verif "$here" -work "$work/w" "$2" ;;
selftest) "$work/vsim" selftest -verif "$here" -work "$work/w" ;;
*) "$work/vsim" check -verif "$here" -work "$work/w" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
exit $?
