#!/bin/bash
# usage: tools/against.sh SEED PROPERTY [scenario...]: run a check with a planted bug applied to /repo
here="$(cd "$(dirname "$0")/.." && pwd)"
git -C /repo apply "$here/seeded/$1/patch.diff" || exit 3
"$here/check" "$2" quick "${@:3}" 2>&1 | grep -v "^ *\(Warning\|Build\)" | cut -c1-220 | tail -5
git -C /repo checkout -- .
