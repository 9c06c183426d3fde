#!/bin/bash
# catch.sh [ID...]: which planted bugs their property's check catches, on a scratch copy of /repo.
cd "$(dirname "$0")/.." || exit 3
export GOTOOLCHAIN=local GOPROXY=off
bin=$(mktemp -d); trap 'rm -rf "$bin"' EXIT
(cd analyzer && GOFLAGS=-mod=vendor go build -o "$bin/a" .) || exit 3
one() {
	id=$1; w=$(mktemp -d); cp -a /repo "$w/repo"; mkdir "$w/ev"
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	git -C "$w/repo" apply "$PWD/seeded/$id/patch.diff" || echo "$id DOES NOT APPLY"
	timeout 900 "$bin/a" -prop "$p" -repo "$w/repo" -verif "$w/ev" >"$w/out" 2>&1; rc=$?
	if [ $rc = 1 ]; then echo "$id ($p) caught: $(grep -m1 -v '^VIOLATION' "$w/out" | cut -c1-150)"; else echo "$id ($p) MISSED rc=$rc $(tail -1 "$w/out" | cut -c1-200)"; fi
	rm -rf "$w"
}
export -f one; export bin
ids=${*:-$(ls seeded)}
for i in $ids; do echo "$i"; done | xargs -P 4 -I{} bash -c 'one {}' | sort
