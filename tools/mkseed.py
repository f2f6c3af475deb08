#!/usr/bin/env python3
"""Make a planted bug: mkseed.py SPEC.json  (from a scratch copy of /repo; never touches /repo).
SPEC: {id, property, needs, what_it_breaks, edits:[[file,old,new],...], c: source, args: [...], opts: "...", expect: exit code, stdout: optional, demo: optional script text}
Confirms: builds, stable tests pass, demo 0 on unchanged and nonzero with the patch."""
import json,os,subprocess,sys,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open(sys.argv[1])); W='/tmp/seedrepo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
if not os.path.exists(W): sh(f'cp -a /repo {W}')
sh(f'cd {W} && git fetch -q /repo && git reset -q --hard FETCH_HEAD')
d=f'{V}/seeded/{s["id"]}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
if 'c' in s:
    open(d+'/prog.c','w').write(s['c'])
    chk=f'[ $rc = {s["expect"]} ]'
    if 'stdout' in s:
        open(d+'/expected.txt','w').write(s['stdout']); chk+=' && cmp -s "$t/out" "$d/expected.txt"'
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# compiles prog.c with the built compiler, runs it in node: exit code {s["expect"]} expected
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$t"' EXIT
cp "$d/prog.c" "$t/prog.c"
timeout 60 ./target/debug/c_to_wasm_compiler "$t/prog.c" -o "$t/prog.wasm" {s.get("opts","")} || {{ echo "compiler failed"; exit 1; }}
timeout 60 node runtime/run.mjs "$t/prog.wasm" {' '.join(s.get("args",[]))} > "$t/out"; rc=$?
head -c 2000 "$t/out"; echo "exit code $rc"
{chk}
''')
else: open(d+'/demo.sh','w').write(s['demo'])
for f,c in s.get('files',{}).items(): open(f'{d}/{f}','w').write(c)
os.chmod(d+'/demo.sh',0o755)
json.dump({k:s[k] for k in('property','needs','what_it_breaks')},open(d+'/meta.json','w'),indent=1)
def build():
    return sh(f'cd {W} && . /opt/vp/env.sh; cargo build --workspace --locked --offline --target-dir {W}/target')
def demo():
    r=sh(f'cd {W} && bash {d}/demo.sh'); return r.returncode,r.stdout[-400:]+r.stderr[-400:]
b=build(); assert b.returncode==0,b.stderr[-2000:]
r0=demo()
for f,o,n in s['edits']:
    p=f'{W}/{f}'; t=open(p).read(); assert t.count(o)==1,(f,o,t.count(o)); open(p,'w').write(t.replace(o,n))
open(d+'/patch.diff','w').write(sh(f'cd {W} && git diff').stdout)
b=build(); assert b.returncode==0,b.stderr[-3000:]
r1=demo()
print('unchanged',r0,'\npatched',r1)
ok=r0[0]==0 and r1[0]!=0
if ok and '--notest' not in sys.argv:
    # the stable tests, in the scratch copy bound over nothing: apply to /repo, test, undo
    assert sh('git -C /repo status --porcelain').stdout=='' 
    sh(f'git -C /repo apply {d}/patch.diff')
    try:
        sh('bash /opt/vp/build.sh'); sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        j=json.load(open('/tmp/seedtest.json')); base=json.load(open('/opt/vp/BASELINE.json'))
        p=json.dumps(j)
    finally:
        sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    def passed(x):
        if isinstance(x,dict):
            for k in('passed','pass','stable'):
                if k in x: return set(x[k])
        return set(x)
    miss=passed(base)-passed(j); print('tests missing:',sorted(miss)[:10]); ok=ok and not miss
sh(f'cd {W} && git checkout -q -- .')
print('SEED',s['id'],'OK' if ok else 'NOT OK'); sys.exit(0 if ok else 1)
