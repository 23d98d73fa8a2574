#!/bin/bash
# usage: check.sh ID [quick|thorough] [case substring]
# Builds the harness with /repo's working tree and runs the check of one property.
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh ID [quick|thorough] [case]}
tier=${2:-quick}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off HOME=${HOME:-/root}
race=
case $id in C16|C17|C19|C21|C22|C30|C31|C32) race=-race ;; esac
bin=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT
cd "$here/harness" || exit 2
if ! go build $race -o "$bin/verif" . ; then
  echo "build failed" >&2
  exit 2
fi
"$bin/verif" check "$id" "$tier" "$here" "$3"
exit $?
