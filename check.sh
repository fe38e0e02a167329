#!/bin/bash
# check.sh C01 quick|thorough     decides one property
# check.sh replay FILE            re-runs one saved case
# check.sh list
# Builds the harness (linked against /repo's packages) and the goledger binary
# from /repo's working tree into a scratch directory, and removes that again.
cd "$(dirname "$0")" || exit 2
. ./env.sh
work=$(mktemp -d "${TMPDIR:-/tmp}/vtbuild.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
(cd harness && go build -o "$work/vt" .) || { echo "error: the harness does not build against /repo" >&2; exit 2; }
(cd /repo && go build -o "$work/goledger" .) || { echo "error: /repo does not build" >&2; exit 2; }
export VT_GOLEDGER=$work/goledger
if [ "${2:-}" = thorough ]; then # for coverage-guided fuzzing
    (cd harness && go test -c -fuzz=FuzzFacet -o "$work/fuzz" .) >&2 || { echo "error: the fuzz target does not build" >&2; exit 2; }
    export VT_FUZZBIN=$work/fuzz
fi
case "$1" in
list) "$work/vt" list ;;
replay) "$work/vt" replay "$2" ;;
*) "$work/vt" run --property "$1" --tier "${2:-quick}" --seed "${VERIF_SEED:-1}" "${@:3}" ;;
esac
