#!/bin/bash
# usage: tools/seedtest.sh ID...   confirm planted bugs in scratch copies: demo quiet on the clean
# tree, demo fails with the patch, stable tests pass with the patch
here="$(cd "$(dirname "$0")/.." && pwd)"
one() {
  id="$1"; w="$(mktemp -d /tmp/seedtest.XXXXXX)"
  cp -a /repo "$w/repo"; cd "$w/repo" || exit 1
  export HOME="$w" LANG=C.UTF-8 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore PYTHONPYCACHEPREFIX="$w/pyc"
  bash "$here/seeded/$id/demo.sh" >"$w/d0" 2>&1; r0=$?
  git apply "$here/seeded/$id/patch.diff" || echo "$id: PATCH DOES NOT APPLY"
  bash "$here/seeded/$id/demo.sh" >"$w/d1" 2>&1; r1=$?
  t=skipped
  if [ -z "$NOTESTS" ]; then
  PYTHONPATH="$w/repo" timeout 840 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$w/j.xml" pyphs/tests/test_cases.py >"$w/log" 2>&1
  python3 /opt/vp/results.py "$w/r.json" junit:"$w/j.xml" >/dev/null 2>&1
  t=$(python3 - "$w/r.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
r=json.load(open(sys.argv[1]))
p=set(r.get('passed') or [k for k,v in r.get('results',{}).items() if v in ('passed','pass')])
print('tests ok' if b<=p else 'TESTS FAIL %s'%sorted(b-p)[:4])
P
)
  fi
  echo "$id: clean demo=$r0 patched demo=$r1 $t"
  [ $r0 -ne 0 ] && tail -3 "$w/d0"
  [ $r1 -ne 0 ] && tail -1 "$w/d1"
  cd /; rm -rf -- "$w"
}
export -f one; export here NOTESTS
printf '%s\n' "$@" | xargs -P "${JOBS:-6}" -I{} bash -c 'one {}'
