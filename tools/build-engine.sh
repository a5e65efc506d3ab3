#!/bin/bash
# Builds the engine (if needed) and prints the path of the binary.
dir=$(cd "$(dirname "$0")/.." && pwd)
. "$dir/tools/env.sh"
sum=$(cd "$dir/engine" && cat *.go go.mod go.sum | sha256sum | cut -c1-16)
bin="$dir/bin/psv-$sum"
if [ ! -x "$bin" ]; then
	mkdir -p "$dir/bin"
	tmp="$bin.$$"
	(cd "$dir/engine" && go build -o "$tmp" .) >&2 || exit 1
	mv "$tmp" "$bin"
fi
echo "$bin"
