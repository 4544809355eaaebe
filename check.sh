#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property by simulation.
# check.sh replay FILE: repeats a violation from its replay file.
# check.sh setup: builds the machinery once, to fill the build cache.
# Builds an instrumented copy of /repo's working tree in a scratch directory,
# which is removed at the end; /repo itself is only read.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOOS=linux CGO_ENABLED=1
unset GOAMD64 GORACE GODEBUG GOGC GOMEMLIMIT GOMAXPROCS
what=${1:?usage: check.sh PROPERTY [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}

tmp=$(mktemp -d /tmp/vsim.XXXXXXXX) || exit 2
cleanup() {
	case "$tmp" in /tmp/vsim.????????) rm -rf "$tmp" ;; esac
}
trap cleanup EXIT
trap 'exit 2' INT TERM

die() { echo "check.sh: $*" >&2; exit 2; }

(cd "$here/sim/instr" && go build -trimpath -o "$tmp/instr" .) || die "cannot build the instrumenter"

# instrument at the highest level that compiles
info=
for level in 3 2 1 0; do
	case "$tmp" in /tmp/vsim.????????) rm -rf "$tmp/o" ;; esac
	stats=$("$tmp/instr" -repo "$repo" -out "$tmp/o" -sim "$here/sim" -level $level 2>"$tmp/err") || continue
	if (cd "$tmp/o/mod" && go build -trimpath -o "$tmp/h" ./zzverif/harness) >"$tmp/err" 2>&1; then
		info="{\"instrumentation_level\":$level,\"rewrites\":$stats}"
		break
	fi
done
[ -n "$info" ] || { head -30 "$tmp/err" >&2; die "cannot build the simulation of $repo"; }

race=
case "$what" in
C02 | C10 | C15 | C16 | C18 | setup | replay)
	(cd "$tmp/o/mod" && go build -trimpath -race -o "$tmp/hr" ./zzverif/harness) || die "cannot build the race detector's simulation"
	race=$tmp/hr
	;;
esac

case "$what" in
setup)
	exit 0
	;;
replay)
	"$tmp/h" replay -plain "$tmp/h" -racebin "$race" -verif "$here" -tmp "$tmp" "$2"
	exit $?
	;;
esac
"$tmp/h" check -prop "$what" -seed "$seed" -tier "$tier" -plain "$tmp/h" -racebin "$race" -verif "$here" -tmp "$tmp" -info "$info" -budget "${VERIF_BUDGET:-0}"
