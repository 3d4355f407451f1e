"""for every planted change: does it build, and do the stable tests pass with it?"""
import glob, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']


def one(i):
    sc = '/tmp/w/va_' + i
    shutil.rmtree(sc, ignore_errors=True)
    sh = lambda c: subprocess.run(c, shell=True, capture_output=True, text=True)
    sh('git clone -q /repo ' + sc)
    if sh('git -C %s apply %s/seeded/%s/patch.diff' % (sc, V, i)).returncode:
        r = 'does not apply'
    elif sh('cd %s && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -Wno-dev && ninja -C _build configor_test' % sc).returncode:
        r = 'does not build'
    else:
        o = sc + '/t.txt'
        sh('timeout 200 python3 /opt/vp/run_catch.py %s/_build/tests/configor_test %s' % (sc, o))
        ok = [l[5:].strip() for l in open(o) if l.startswith('PASS')]
        bad = [l[5:].strip() for l in open(o) if l.startswith('FAIL')]
        r = [x for x in stable if x not in ok or x in bad] or 'ok'
        a = sh('cd /repo && sh %s/seeded/%s/demo.sh' % (V, i)).returncode
        b = sh('cd %s && sh %s/seeded/%s/demo.sh' % (sc, V, i)).returncode
        if a or not b:
            r = 'demo %d %d' % (a, b)
    shutil.rmtree(sc, ignore_errors=True)
    return i, r


ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(V + '/seeded/*'))
with ThreadPoolExecutor(4) as ex:
    for i, r in ex.map(one, ids):
        if r != 'ok':
            print(i, r, flush=True)
