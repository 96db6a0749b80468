#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property against /repo's working tree.
# Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. 2: no answer.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
here=$PWD
mkdir -p bin evidence
(cd engine && go build -o "$here/bin/gosym" .) || exit 2
exec ./bin/gosym check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo /repo -verif "$here"
