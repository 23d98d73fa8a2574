#!/bin/bash
# try.sh [ID...]: run the check of each planted bug's property against it, in scratch copies (P= prop overrides)
root=$(cd "$(dirname "$0")/../.." && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
for d in ${@:-$(ls "$root/seeded")}; do
  p=${P:-$(python3 -c "import json;print(json.load(open('$root/seeded/$d/meta.json'))['property'])")}
  w=$(mktemp -d /tmp/seedtry-XXXXXX)
  git clone -q /repo "$w/repo" && git -C "$w/repo" apply "$root/seeded/$d/patch.diff" || { rm -rf "$w"; continue; }
  sed "s#=> /repo#=> $w/repo#" "$root/harness/go.mod" > "$w/try.mod"; cp "$root/harness/go.sum" "$w/try.sum"
  race=; case $p in C16|C17|C19|C21|C22|C30|C31|C32) race=-race ;; esac
  (cd "$root/harness" && go build $race -modfile="$w/try.mod" -o "$w/verif" .) || echo BUILD
  mkdir "$w/home"; cp "$root/known-findings.txt" "$w/home/"
  s=$(date +%s)
  VERIF_SEED=${SEED:-1} timeout 890 "$w/verif" check $p quick "$w/home" > "$w/out" 2>&1; rc=$?
  echo "$d $p rc=$rc $(($(date +%s)-s))s $(grep -A1 '^VIOLATION' "$w/out" | sed -n 2p | cut -c1-170)"
  [ -n "$KEEP" ] && cp "$w/out" /tmp/try.out
  rm -rf "$w"
done
