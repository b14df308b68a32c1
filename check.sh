#!/bin/bash
# check.sh ID: decide one property against /repo's working tree.
# VERIF_TIER=quick|thorough, VERIF_SEED=n. See DESIGN.md.
# check.sh replay FILE: run one saved case again.
cd "$(dirname "$0")" || exit 2
verif=$PWD
. /opt/vp/env.sh
export GOSUMDB=off GOFLAGS="$GOFLAGS -buildvcs=false"
scratch=$(mktemp -d "${TMPDIR:-/tmp}/float-check.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 143' TERM INT
export TMPDIR=$scratch PBT_VERIF=${PBT_VERIF:-$verif}

build() { # name arch [race]
	local out=$scratch/$1-$2 opt=
	local goarch=$2 go386=sse2 goamd64=v1
	[ "$3" = race ] && { out=$scratch/$1-race; opt=-race; export CGO_ENABLED=1; } || export CGO_ENABLED=0
	[ $2 = 386soft ] && goarch=386 go386=softfloat
	[ $2 = amd64v3 ] && goarch=amd64 goamd64=v3
	(cd harness && GOARCH=$goarch GO386=$go386 GOAMD64=$goamd64 go build $opt -o "$out" ./cmd/$1) >"$scratch/log" 2>&1 && return
	cat "$scratch/log"
	echo "ERROR: $1 does not build ($2 $3)"
	exit 2
}

dict() { # name dir...
	local name=$1; shift
	"$scratch/dict-amd64" /repo "$@" >"$scratch/dict-$name.json" || exit 2
}

id=$1
if [ "$id" = replay ]; then
	file=$(realpath "$2") || exit 2
	id=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$file")
	suite=$(sed -n 's/.*"suite": "\(C[0-9]*\)".*/\1/p' "$file")
	label=$(sed -n 's/.*"build": "\(.*\)",*$/\1/p' "$file")
	name=${label%-*}
	arch=${label#*-}
	if [ "$id" = C26 ] && [ -z "$suite" ]; then
		build core 386; build strfmt 386
		export PBT_PEER_core=$scratch/core-386 PBT_PEER_strfmt=$scratch/strfmt-386
	fi
	if [ "$id" = C27 ]; then
		build $name amd64
		export PBT_PEER_$name=$scratch/$name-amd64
	fi
	if [ "$arch" = race ]; then build $name amd64 race; else build $name $arch; fi
	"$scratch/$name-$arch" replay "$file"
	exit
fi

build dict amd64
dict core $(cd /repo && find . -name '*.go' -not -path './internal/strconv/*' -printf '%h\n' | sort -u)
dict strfmt binary16 $(cd /repo && find ./internal -name '*.go' -printf '%h\n' | sort -u)
b() { # name arch scale ids-json [race]
	echo "{\"Label\":\"$1-$2\",\"Exe\":\"$scratch/$1-$2\",\"Scale\":$3,\"IDs\":$4,\"Race\":${5:-false},\"Dict\":\"$scratch/dict-$1.json\"}"
}
main=core
case $id in
C21|C22|C23|C24)
	main=strfmt
	build strfmt amd64
	builds=$(b strfmt amd64 1 null)
	;;
C25)
	build core amd64; build strfmt amd64
	builds=$(b core amd64 1 null),$(b strfmt amd64 1 null)
	;;
C26)
	build core amd64; build core 386
	build strfmt amd64; build strfmt 386
	export PBT_PEER_core=$scratch/core-386 PBT_PEER_strfmt=$scratch/strfmt-386
	core='["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C25"]'
	strfmt='["C21","C22","C23","C24","C25"]'
	builds=$(b core amd64 1 null),$(b strfmt amd64 1 null),$(b core 386 0.2 "$core"),$(b strfmt 386 0.2 "$strfmt")
	# The other ways Go compiles floating point: without an FPU, and with fused
	# multiplication and addition where the processor has it.
	build core 386soft; build strfmt 386soft
	builds+=,$(b core 386soft 0.02 "$core"),$(b strfmt 386soft 0.02 "$strfmt")
	if grep -qw fma /proc/cpuinfo && grep -qw avx2 /proc/cpuinfo; then
		build core amd64v3; build strfmt amd64v3
		if "$scratch/strfmt-amd64v3" serve </dev/null >/dev/null 2>&1; then
			builds+=,$(b core amd64v3 0.02 "$core"),$(b strfmt amd64v3 0.02 "$strfmt")
		fi
	fi
	;;
C27)
	build core amd64; build core amd64 race
	build strfmt amd64; build strfmt amd64 race
	export PBT_PEER_core=$scratch/core-amd64 PBT_PEER_strfmt=$scratch/strfmt-amd64
	builds=$(b core amd64 1 null),$(b strfmt amd64 1 null),$(b core race 1 null true),$(b strfmt race 1 null true)
	;;
C[0-9][0-9])
	build core amd64
	builds=$(b core amd64 1 null)
	;;
*)
	echo "usage: check.sh C01..C27 | replay FILE"
	exit 2
	;;
esac
PBT_BUILDS="[$builds]" "$scratch/$main-amd64" check "$id" &
pid=$!
trap 'kill $pid; wait $pid; exit 143' TERM INT
wait $pid
exit
