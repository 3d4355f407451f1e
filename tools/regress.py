"""Applies every planted change in seeded/ to a scratch clone and runs its property's check (or all claimed ones with --all).
usage: regress.py [--all] [ids...]"""
import glob, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
alls = '--all' in a
ids = [x for x in a if not x.startswith('--')] or sorted(os.path.basename(d) for d in glob.glob(V + '/seeded/*'))
claimed = sorted(json.load(open(V + '/tools/claims.json')))


def one(i):
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    sc = '/tmp/w/rg_' + i
    shutil.rmtree(sc, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', sc], check=True)
    r = subprocess.run(['git', '-C', sc, 'apply', d + '/patch.diff'], capture_output=True, text=True)
    if r.returncode:
        shutil.rmtree(sc)
        return i, ['DOES NOT APPLY']
    out = []
    for c in (claimed if alls else [prop]):
        t = time.time()
        r = subprocess.run(['python3', V + '/check.py', c], capture_output=True, text=True, env=dict(os.environ, CONFIGOR_REPO=sc, VERIF_EVID='/tmp/w/rge_' + i))
        t = time.time() - t
        if r.returncode or c == prop or t > 100:
            out.append('%s rc=%d %.0fs %s' % (c, r.returncode, t, '' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else r.stdout[-200:]))
    shutil.rmtree(sc, ignore_errors=True)
    shutil.rmtree('/tmp/w/rge_' + i, ignore_errors=True)
    return i, out


with ThreadPoolExecutor(2) as ex:
    for i, out in ex.map(one, ids):
        print(i, ' | '.join(out), flush=True)
