#!/bin/bash
# check.sh <property> [quick|thorough]: builds the harness from /repo's working tree and runs one check.
# check.sh replay <file>: re-runs a recorded case.
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=${HOME:-/root}
if [ -x /opt/veriftools/go1.27.3/bin/go ]; then
    export GOROOT=/opt/veriftools/go1.27.3 PATH=/opt/veriftools/go1.27.3/bin:$PATH
fi
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOSUMDB=off GOGC=200
tmp=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
id=$1
race=
case "$id" in C26) race=-race ;; esac
if [ "$id" = replay ] && grep -q '"property": *"C26"' "$2"; then race=-race; fi
(cd "$V/harness" && go build $race -trimpath -o "$tmp/pbt" .) >"$tmp/build.log" 2>&1 || {
    echo "the harness does not build against /repo:" >&2; cat "$tmp/build.log" >&2; exit 2; }
if [ "$id" = C30 ] || { [ "$id" = replay ] && grep -q '"property": *"C30"' "$2"; }; then # the program itself
    (cd /repo && go build -trimpath -o "$tmp/kzg_setup" ./models/trie_kzg_bn256/kzg_setup) >"$tmp/build.log" 2>&1 || {
        echo "kzg_setup does not build:" >&2; cat "$tmp/build.log" >&2; exit 2; }
    export KZG_SETUP_PROGRAM=$tmp/kzg_setup
fi
if [ "$id" = C31 ] || { [ "$id" = replay ] && grep -q '"property": *"C31"' "$2"; }; then
    (cd /repo && go build -trimpath -o "$tmp/trie_bench" ./examples/trie_bench) >"$tmp/build.log" 2>&1 || {
        echo "trie_bench does not build:" >&2; cat "$tmp/build.log" >&2; exit 2; }
    export TRIE_BENCH_PROGRAM=$tmp/trie_bench
fi
if [ "$id" = replay ]; then "$tmp/pbt" replay "$2"; exit $?; fi
tier=${2:-${VERIF_TIER:-quick}}
"$tmp/pbt" check "$id" "$tier" "$V/evidence/$id.json" "$V/evidence/replay"
exit $?
