"""Author and try planted bugs.

  python3 tools/seed.py make SPECS.py     write seeded/<id>/ from specifications
  python3 tools/seed.py try [-c] ID...    validate in copies (-c: run the check)

A specification file calls bug(id, property, file, edits, demo, needs, breaks).
Validation happens on a copy of /repo that is bind-mounted over /repo in a mount
namespace of its own, so nothing outside the copy changes.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
DEMO = '''#!/bin/bash
# exit 0: the property holds in the demonstrated situation
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def make(path):
    n = 0
    shutil.rmtree('/tmp/seed-make', ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', '/tmp/seed-make'])

    def bug(bid, prop, file, edits, demo, needs, breaks):
        nonlocal n
        files = file if isinstance(file, dict) else {file: edits}
        for fn, ed in files.items():
            fn = os.path.join('/tmp/seed-make/src/zope/index', fn)
            s = open(fn).read()
            for old, new in ed:
                assert s.count(old) == 1, (bid, s.count(old), old)
                s = s.replace(old, new)
            open(fn, 'w').write(s)
        diff = subprocess.check_output(['git', 'diff'],
                                       cwd='/tmp/seed-make', text=True)
        subprocess.check_call(['git', 'checkout', '-q', '--', '.'],
                              cwd='/tmp/seed-make')
        d = os.path.join(SEEDED, bid)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(demo.strip() + '\n')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(d + '/meta.json', 'w'), indent=1)
        n += 1
    exec(compile(open(path).read(), path, 'exec'), {'bug': bug})
    shutil.rmtree('/tmp/seed-make')
    print(n, 'bugs written')


def ownership(bid):
    """Changed lines must be lines of the original repository."""
    base = subprocess.check_output(
        ['git', 'log', '--format=%H', '--grep=^fix:', '--reverse'],
        cwd='/repo', text=True).split()[0] + '^'
    fn, n, orig, mine = None, 0, 0, 0
    blame = {}
    for line in open(os.path.join(SEEDED, bid, 'patch.diff')):
        if line.startswith('--- a/'):
            fn = line[6:].strip()
            if fn not in blame:
                blame[fn] = subprocess.check_output(
                    ['git', 'blame', '-s', '-l', base + '..HEAD', '--', fn],
                    cwd='/repo', text=True).split('\n')
        elif line.startswith('@@'):
            n = int(line.split()[1][1:].split(',')[0]) - 1
        elif line.startswith('-'):
            # boundary commits are marked by ^
            if blame[fn][n].startswith('^'):
                orig += 1
            else:
                mine += 1
            n += 1
        elif line.startswith(' '):
            n += 1
    return '' if orig and not mine else (
        'lines changed: %d original, %d of fixes' % (orig, mine))


SCRIPT = r'''
set -u
mount --bind "$W" /repo || exit 99
cd /repo
git checkout -q -- . 
bash /opt/vp/build.sh >"$L/build0" 2>&1 || { echo "build fails on clean"; exit 0; }
timeout 300 bash "$D/demo.sh" >"$L/demo0" 2>&1 || { echo "DEMO FAILS ON CLEAN: $(tail -1 $L/demo0)"; exit 0; }
git apply "$D/patch.diff" || { echo "does not apply"; exit 0; }
bash /opt/vp/build.sh >"$L/build1" 2>&1 || { echo "DOES NOT BUILD"; exit 0; }
bash /opt/vp/test.sh "$L/tests.json" >"$L/tests" 2>&1
timeout 300 bash "$D/demo.sh" >"$L/demo1" 2>&1 && { echo "DEMO PASSES WITH BUG"; exit 0; }
echo "demo: $(tail -1 $L/demo1 | cut -c1-150)"
if [ -n "$C" ]; then
  cp -a /verif "$L/verif"; cd "$L/verif"
  for p in $C; do
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 /opt/venv/bin/python -B run.py $p ${ARGS:-} > "$L/check-$p" 2>&1
  echo "check $p exit $?: $(grep ^VIOLATION "$L/check-$p" | head -1 | cut -c1-60)"
  done
fi
'''


def attempt(bid, check, checks=None):
    tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        w = os.path.join(tmp, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', w])
        d = os.path.join(SEEDED, bid)
        c = ''
        if check:
            c = checks or json.load(open(d + '/meta.json'))['property']
        p = subprocess.run(['unshare', '-Urm', 'bash', '-c', SCRIPT],
                           env=dict(os.environ, W=w, L=tmp, D=d, C=c),
                           capture_output=True, text=True)
        out = p.stdout + p.stderr
        try:
            r = json.load(open(tmp + '/tests.json'))
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            lost = sorted(stable - set(r['passed']))
            out += ownership(bid)
            out += 'tests: %s\n' % ('ok' if not lost else
                                    'LOST %d: %s' % (len(lost), lost[:4]))
        except FileNotFoundError:
            pass
        logs = ''
        if check:
            for p in c.split():
                fn = os.path.join(tmp, 'check-' + p)
                if os.path.exists(fn):
                    logs += open(fn).read()
        os.makedirs('/tmp/seed-logs', exist_ok=True)
        open('/tmp/seed-logs/' + bid, 'w').write(out + logs)
        return bid, out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        ids = sys.argv[2:]
        check = '-c' in ids
        checks = None
        if '-p' in ids:
            i = ids.index('-p')
            checks = ids[i + 1].replace(',', ' ')
            del ids[i:i + 2]
            check = True
        ids = [i for i in ids if i != '-c'] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(2 if check else 4) as ex:
            for bid, out in ex.map(lambda b: attempt(b, check, checks), ids):
                print('== %s\n   %s' % (bid, out.strip().replace(
                    '\n', '\n   ')), flush=True)
