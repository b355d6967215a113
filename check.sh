#!/bin/sh
# check.sh PROPERTY quick|thorough [harness]
cd "$(dirname "$0")" || exit 2
[ -x bin/gocv ] || ./setup.sh || exit 2
exec ./bin/gocv check "$@"
