#!/bin/bash
# run.sh build            builds the analyser
# run.sh ID [tier]        runs one property check against /repo
cd "$(dirname "$0")" || exit 1
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' GO111MODULE=on
unset GOOS GOARCH
build() {
	local src bin=bin/monkitcheck
	src=$(cat checker/*.go checker/spec/*.go checker/go.mod checker/go.sum | sha256sum | cut -c1-16)
	if [ ! -x $bin ] || [ "$(cat bin/src 2>/dev/null)" != "$src" ]; then
		mkdir -p bin && (cd checker && go build -o ../bin/monkitcheck.$$ .) && mv bin/monkitcheck.$$ $bin && echo "$src" > bin/src
	fi
}
if [ "$1" = build ]; then build; exit; fi
if ! build >bin.log 2>&1; then
	mkdir -p evidence; mv bin.log "evidence/$1.replay.txt"
	echo "VIOLATION property=$1 replay=/verif/evidence/$1.replay.txt"
	echo "  the analyser could not be built"
	exit 1
fi
rm -f bin.log
exec bin/monkitcheck check "$1" "${2:-${VERIF_TIER:-quick}}"
