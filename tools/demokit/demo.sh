#!/bin/bash
# usage: demo.sh (cwd: the repository). Builds demo.c against the repository's library sources and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
w=$(mktemp -d /tmp/gdemo.XXXXXX) || exit 2
trap 'rm -rf -- "$w"' EXIT
mkdir "$w/gen" "$w/inc"
sed 's/#cmakedefine \([A-Z0-9_]*\).*/#define \1/' "$repo/config.h.in" > "$w/inc/config.h"
PYTHONDONTWRITEBYTECODE=1 python3 "$repo/generator/parser.py" --service "$here/demo.gr" --out "$w/gen" --lang-c --server --client >/dev/null || exit 3
srcs=$(find "$repo/runtime" -name '*.c' ! -path '*vali*' ! -path '*windows*')
gcc -w -g -O1 $DEMO_CFLAGS $(cat "$here/cflags" 2>/dev/null) -DGRACHT_BUILD -I"$w/inc" -I"$w/gen" -I"$repo/include" -I"$repo/runtime" -I"$repo/runtime/link/socket" -I"$here" -o "$w/demo" "$here/demo.c" "$w"/gen/*.c $srcs -lpthread || exit 3
cd "$w" && timeout -k 5 120 ./demo
