"""Plant a bug: python3 tools/mkseed.py SPEC.py...  (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO)
Writes seeded/<id>/ from edits applied to a scratch copy of /repo."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds in the pyphs found in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf -- "$work"' EXIT
export PYTHONPATH="$PWD" HOME="$work" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$work/pyc" \\
  PYTHONWARNINGS=ignore MPLBACKEND=Agg PYTHONHASHSEED=0 LANG=C.UTF-8
cd "$work" || exit 3
timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def main():
    for spec in sys.argv[1:]:
        g = {}
        exec(open(spec).read(), g)
        tmp = tempfile.mkdtemp(prefix='mkseed')
        try:
            subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', tmp + '/w'])
            w = tmp + '/w'
            for fn, old, new in g['EDITS']:
                p = os.path.join(w, fn)
                s = open(p).read()
                assert s.count(old) == 1, (spec, fn, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.check_output(['git', '-C', w, 'diff'])
            out = os.path.join(HERE, 'seeded', g['ID'])
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'wb').write(diff)
            open(out + '/demo.sh', 'w').write(DEMO_SH)
            os.chmod(out + '/demo.sh', 0o755)
            open(out + '/demo.py', 'w').write(g['DEMO'].lstrip())
            json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']),
                      open(out + '/meta.json', 'w'), indent=1)
            print(g['ID'])
        finally:
            subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', tmp + '/w'])
            shutil.rmtree(tmp, ignore_errors=True)


main()
