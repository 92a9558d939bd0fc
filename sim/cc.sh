#!/bin/bash
# cc.sh <object> <compiler and flags ... source>: compile unless the object was built from the same preprocessed text
set -u -o pipefail
o=$1; shift
h=$({ echo "$*"; "$@" -E; } 2>"$o.err" | sha256sum) || h=
if [ -n "$h" ] && [ -f "$o" ] && [ "$(cat "$o.key" 2>/dev/null)" = "$h" ]; then exit 0; fi
/bin/rm -f "$o.key"
"$@" -c -o "$o" 2>"$o.err" || { a=("${@/-std=c++14/-std=c++17}"); "${a[@]}" -c -o "$o" 2>/dev/null || { cat "$o.err" >&2; exit 1; }; }
echo "$h" >"$o.key"
