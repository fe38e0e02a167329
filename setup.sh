#!/bin/bash
# Warms the Go build cache (checks build for themselves as well).
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p evidence replays
(cd harness && go build -o /dev/null .) && (cd /repo && go build -o /dev/null .)
