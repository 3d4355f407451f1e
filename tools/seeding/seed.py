#!/usr/bin/env python3
"""seed.py FILE.py [ids]: FILE.py defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo)]"""
import sys, os, subprocess, json, shutil, runpy, re, concurrent.futures as cf
VER='/verif'
DEMO='''#!/bin/sh
# run with cwd = the repository; exit 0: behaves, 1: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -g -O0 %s-Iinclude "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 60 ./demo
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd,str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors='replace', **kw)
base=sh('git -C /repo ls-tree -r --name-only 4ce8661').stdout.split()
def work(s):
    sc='/tmp/w/sc_'+s['id']
    out=[]
    def say(*a): out.append(' '.join(map(str,a)))
    shutil.rmtree(sc, ignore_errors=True)
    sh('git clone -q /repo '+sc)
    for f,old,new in s['edits']:
        p=sc+'/'+f; t=open(p).read()
        if t.count(old)!=1: say('EDIT FAILS',f,t.count(old),old); return s['id'],False,out
        open(p,'w').write(t.replace(old,new))
    diff=sh('git -C %s diff'%sc).stdout
    # origin of the removed lines
    bl={}
    orig=False
    for f in set(f for f,_,_ in s['edits']):
        b=sh('git -C %s blame -s HEAD -- %s'%(sc,f)).stdout.split('\n')
        d=sh('git -C %s diff -U0 -- %s'%(sc,f)).stdout
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?',d,re.M):
            a=int(m.group(1)); n=int(m.group(2) if m.group(2) is not None else 1)
            for i in range(a,a+max(n,1)):
                c=b[i-1][:7] if b[i-1][0]!='^' else '4ce8661'
                if n and not c.startswith('4ce866'): say('NOTE line %s:%d from %s'%(f,i,c))
                elif n: orig=True
                else:
                    if c.startswith('4ce866'): orig=True
    if not orig: say('NO ORIGINAL LINE CHANGED')
    d=VER+'/seeded/'+s['id']
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cpp','w').write(s['demo'].lstrip('\n'))
    fl=s.get('flags','')
    open(d+'/demo.sh','w').write(DEMO%(fl+' ' if fl else ''))
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    ok=True
    r=sh(['sh',d+'/demo.sh'],cwd='/repo')
    if r.returncode: ok=False; say('demo fails on unchanged tree',r.returncode,r.stdout[-1500:])
    r=sh(['sh',d+'/demo.sh'],cwd=sc)
    if r.returncode in (0,3): ok=False; say('demo passes with change',r.returncode,r.stdout[-1500:])
    r=sh('cd %s && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -Wno-dev >/dev/null && ninja -C _build configor_test'%sc)
    if r.returncode: ok=False; say('build fails',r.stdout[-1500:])
    else:
        r=sh('cd %s && timeout 100 python3 /opt/vp/run_catch.py %s/_build/tests/configor_test /tmp/w/%s.txt'%(sc,sc,s["id"]))
        t=open('/tmp/w/%s.txt'%s['id']).read() if os.path.exists('/tmp/w/%s.txt'%s['id']) else ''
        pas=set(l[5:].strip() for l in t.splitlines() if l.startswith('PASS ')); fl_=set(l.split(' ',1)[1].strip() for l in t.splitlines() if l.startswith('FAIL')); bad=[x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in pas or x in fl_]
        if bad or not t: ok=False; say('tests',bad[:5],r.stdout[-300:])
    shutil.rmtree(sc+'/_build',ignore_errors=True)
    for c in [s['prop']]+s.get('also',[]):
        if os.path.exists(VER+'/checks/%s.py'%c.lower()):
            e=dict(os.environ,CONFIGOR_REPO=sc,VERIF_EVID='/tmp/w/ev_'+s['id'])
            r=sh(['timeout','900','python3',VER+'/check.py',c],env=e)
            say('check',c,'CAUGHT' if r.returncode==1 and 'VIOLATION property='+c in r.stdout else 'missed rc=%d'%r.returncode, '|', ' // '.join(l.strip() for l in r.stdout.splitlines() if l.startswith('  ['))[:300])
            if r.returncode not in (0,1): say(r.stdout[-1500:])
    shutil.rmtree(sc,ignore_errors=True)
    if not ok: shutil.rmtree(d)
    return s['id'],ok,out
if __name__=='__main__':
    S=runpy.run_path(sys.argv[1])['SEEDS']
    if sys.argv[2:]: S=[s for s in S if s['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for i,ok,out in ex.map(work,S):
            print('%s %s'%('OK  ' if ok else 'BAD ',i)); 
            for o in out: print('    ',o)
