#!/bin/bash
# usage: check.sh <property>   decides one property from the source in /repo
cd "$(dirname "$0")" || exit 2
V=$PWD
[ -x bin/jsa ] && [ -z "$(find jsa -newer bin/jsa -name '*.go' -not -path 'jsa/vendor/*' -print -quit)" ] || ./build.sh >&2 || exit 2
exec bin/jsa -check "$1" -verif "$V" -repo "${REPO:-/repo}"
