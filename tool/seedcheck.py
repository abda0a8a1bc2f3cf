#!/usr/bin/env python3
"""Development aid: confirm planted changes (seeded/<id>) in a private copy of
/repo, mounted over /repo in a mount namespace of its own:
  seedcheck.py [--notest] [--nocheck] [-j N] ID...
prints, per change: demo before/after, tests that stop passing, exit of the check."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/tmp/sr'

INNER = r'''
set -u
mount --bind "$1/repo" /repo || exit 90
mount --bind "$1/verif" /verif || exit 90
S=$1/seed
cd /repo
if [ "$4" = 1 ]; then
bash /opt/vp/build.sh >$1/build0.log 2>&1 || { echo BUILD0 FAILED; exit 1; }
timeout 300 bash $S/demo.sh >$1/demo0.log 2>&1; echo "demo0=$?"
fi
git apply $S/patch.diff || { echo APPLY FAILED; exit 1; }
if [ "$4" = 1 ]; then
bash /opt/vp/build.sh >$1/build1.log 2>&1 || { echo BUILD1 FAILED; exit 1; }
timeout 300 bash $S/demo.sh >$1/demo1.log 2>&1; echo "demo1=$?"
fi
if [ "$2" = 1 ]; then
  bash /opt/vp/test.sh $1/t.json >$1/test.log 2>&1
  python3 - $1/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
t=json.load(open(sys.argv[1]))
want=set(b['stable'])
print('tests=%d lost=%s' % (len(want), sorted(want-set(t['passed']))[:5]))
P
fi
if [ "$3" != 0 ]; then
  cd /verif
  P=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" $S/meta.json)
  if [ "$3" = all ]; then P=; fi
  timeout 900 python3 check.py $P >$1/check.log 2>&1; echo "check=$?"
  grep '^VIOLATION\|^UNDECIDED\|broken' $1/check.log | cut -c1-160
fi
'''


def one(i, test, chk, demo):
    d = os.path.join(BASE, i)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    os.makedirs(d + '/verif')
    for n in os.listdir(VERIF):
        if n not in ('seeded', '.git', 'evidence', 'out'):
            subprocess.run(['cp', '-a', os.path.join(VERIF, n), d + '/verif/'], check=True)
    subprocess.run(['cp', '-a', os.path.join(VERIF, 'seeded', i), d + '/seed'], check=True)
    r = subprocess.run(['unshare', '-m', 'bash', '-c', INNER, 'x', d, '1' if test else '0', chk, '1' if demo else '0'], capture_output=True, text=True)
    out = '%s: %s %s' % (i, ' | '.join(r.stdout.split('\n')), r.stderr[-300:])
    keep = {}
    for n in os.listdir(d):
        if n.endswith('.log'):
            shutil.copy(os.path.join(d, n), os.path.join(BASE, i + '.' + n))
    shutil.rmtree(d)
    return out


def main():
    a = sys.argv[1:]
    test, chk, demo, j = True, '1', True, 3
    ids = []
    while a:
        x = a.pop(0)
        if x == '--notest':
            test = False
        elif x == '--nocheck':
            chk = '0'
        elif x == '--allchecks':
            chk = 'all'
        elif x == '--nodemo':
            demo = False
        elif x == '-j':
            j = int(a.pop(0))
        else:
            ids.append(x)
    ids = ids or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    os.makedirs(BASE, exist_ok=True)
    with ThreadPoolExecutor(j) as ex:
        for o in ex.map(lambda i: one(i, test, chk, demo), ids):
            print(o, flush=True)


main()
