"""Plant bugs: python3 tools/plant.py SPEC.py [id...]

SPEC.py defines BUGS = {id: dict(prop, file, edits=[(old, new), ...] (or {file: edits}), needs, breaks, demo)}.
Each change is confirmed in a scratch copy: patch applies, stable tests pass,
demo passes without it and fails with it; then the check of the property is run
against the changed copy.  Only confirmed changes are written to seeded/."""
import json
import os
import shutil
import subprocess
import sys
import importlib.util

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/plant/repo'
DEMO_SH = '''#!/bin/bash
# run in the repository; exit 0 when the property holds on the demonstrated input
here="$(cd "$(dirname "$0")" && pwd)"
if [ -x /opt/venv/bin/python ]; then PY=/opt/venv/bin/python; else PY=python3; fi
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" exec "$PY" -W ignore "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    want = sys.argv[2:]
    for bid, d in mod.BUGS.items():
        if want and bid not in want:
            continue
        shutil.rmtree(SCR, ignore_errors=True)
        shutil.copytree('/repo', SCR, symlinks=True)
        files = d['file'] if isinstance(d['file'], dict) else {d['file']: d['edits']}
        bad = False
        for f, edits in files.items():
            p = os.path.join(SCR, f)
            s = open(p).read()
            for old, new in edits:
                if s.count(old) != 1:
                    print(bid, 'BAD EDIT: %d matches of %r' % (s.count(old), old))
                    bad = True
                s = s.replace(old, new)
            open(p, 'w').write(s)
        if bad:
            continue
        diff = sh('git -C %s diff' % SCR).stdout
        tmp = '/tmp/plant/%s' % bid
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/demo.py', 'w').write(d['demo'])
        open(tmp + '/patch.diff', 'w').write(diff)
        json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % tmp, cwd='/repo')
        b = sh('bash %s/demo.sh' % tmp, cwd=SCR)
        t = sh("cd %s && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --tb=no -o 'python_files=test_*.py SelfSimilar.py' --rootdir=. wiz 2>&1 | tail -15" % SCR)
        fails = [l for l in t.stdout.splitlines() if l.startswith('FAILED') or l.startswith('ERROR')]
        ok = a.returncode == 0 and b.returncode != 0 and len(fails) == 1 and 'test_Article_Skew_TangentialVorticity' in fails[0]
        if not ok:
            print(bid, 'NOT CONFIRMED demo clean=%d bug=%d fails=%s' % (a.returncode, b.returncode, fails))
            print(a.stdout[-600:], b.stdout[-600:])
            continue
        c = sh('cd %s && VERIF_REPO=%s VERIF_EVIDENCE=/tmp/plant/ev timeout 900 python3-vt check.py %s' % (VERIF, SCR, d['prop']))
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        nf = [l for l in v if l.endswith('no-failing-input-found')]
        print(bid, d['prop'], 'CONFIRMED; check rc=%d violations=%d (no input: %d)' % (c.returncode, len(v), len(nf)), v[:1])
        dst = os.path.join(VERIF, 'seeded', bid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(tmp, dst)
    shutil.rmtree(SCR, ignore_errors=True)


main()
