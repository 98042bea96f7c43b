#!/bin/bash
# Usage: check.sh PROPERTY [extra flags]      builds everything from /repo's working tree and runs the check
#        check.sh replay FILE                 replays a violation
set -u
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
prop=$1; shift
replay=()
if [ "$prop" = replay ]; then
	file=$1; shift
	replay=(-replay "$file")
	prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$file")
fi
case $prop in
C21) kind=redis; pkgs=.,./stackexchange/redis; mods=github.com/mediocregopher/radix/v3 ;;
C22) kind=nats; pkgs=.,./stackexchange/nats; mods=github.com/nats-io/nats.go,github.com/nats-io/nuid ;;
C25) kind=adapters; pkgs=.,./gobwas,./gorilla; mods=github.com/gorilla/websocket,github.com/gobwas/ws,github.com/gobwas/httphead,github.com/gobwas/pool ;;
*) kind=core; pkgs=.; mods= ;;
esac
work=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
(cd "$VERIF/tools" && go build -o "$work/instr" ./instr) || exit 2
"$work/instr" -repo "$REPO" -out "$work/src" -pkgs "$pkgs" -mods "$mods" > "$work/mods" || exit 2
sed -e 's/^module .*/module vharness/' "$REPO/go.mod" > "$work/go.mod"
{
	echo "require vsched v0.0.0"
	echo "replace vsched => $VERIF/vsched"
	echo "require github.com/kataras/neffos v0.0.0"
	while read -r m d; do echo "replace $m => $d"; done < "$work/mods"
} >> "$work/go.mod"
cp "$REPO/go.sum" "$work/go.sum"
(cd "$VERIF/harness" && go build -modfile="$work/go.mod" -o "$work/check" "./$kind") || exit 2
if [ -n "${VERIF_KEEP:-}" ]; then cp "$work/check" "$VERIF_KEEP"; cp -r "$work/src" "$VERIF_KEEP.src"; fi
if [ ${#replay[@]} -gt 0 ]; then "$work/check" "${replay[@]}"; exit $?; fi
"$work/check" -prop "$prop" -tier "${VERIF_TIER:-quick}" -out "$VERIF/evidence" -known "$VERIF/known_findings.json" "$@"
