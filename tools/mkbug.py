#!/usr/bin/env python3
"""mkbug.py SPEC.py [ID...]: turn planted-bug specifications into /verif/seeded/<id>/.
A spec defines BUGS: list of dict(id, property, needs, breaks, edits=[(file, old, new)], demo=rust main).
Each is confirmed in a scratch copy of /repo: the demo passes before, the patch builds, the stable
tests pass with it, the demo fails with it; only then is the folder kept."""
import sys, os, subprocess, json, shutil, tempfile, runpy, re
from concurrent.futures import ThreadPoolExecutor
REPO='/repo'; OUT=os.environ.get('MKBUG_OUT','/verif/seeded')  # with MKBUG_OUT set, bugs that only insert lines are kept too
BASE='1dd1ae9'
DEMO='''#!/bin/bash
# run with the repository as the working directory
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
mkdir "$D/src" || exit 2
cp "$H/main.rs" "$D/src/main.rs" || exit 2
cat >"$D/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
henriks-parsing-project = { path = "$R" }
[workspace]
END
cd "$D" || exit 2
export CARGO_TARGET_DIR=$D/target RUSTFLAGS=-Awarnings
@PRE@timeout 280 cargo run --offline -q@ARGS@
'''
def sh(c, cwd, env=None):
    e=dict(os.environ); e.update(env or {})
    return subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, env=e)
def orig_lines(f):
    r=subprocess.run(['git','blame','-s',f],cwd=REPO,capture_output=True,text=True).stdout.splitlines()
    return [l.startswith('^'+BASE) for l in r]
def one(b):
    id=b['id']; d=tempfile.mkdtemp(prefix='bug_')
    try:
        c=d+'/repo'; subprocess.run(['cp','-a',REPO,c],check=True)
        sh('rm -rf target',c)
        touched=False
        for f,old,new in b['edits']:
            s=open(c+'/'+f).read()
            if s.count(old)!=1: return id,'edit does not match once (%d) in %s: %r'%(s.count(old),f,old[:60])
            open(c+'/'+f,'w').write(s.replace(old,new))
        diff=sh('git diff',c).stdout
        for f in re.findall(r'^\+\+\+ b/(.*)$',diff,re.M):
            o=orig_lines(f); n=0; cur=0
            for l in sh('git diff -U0 -- '+f,c).stdout.splitlines():
                m=re.match(r'@@ -(\d+)',l)
                if m: cur=int(m.group(1)); continue
                if l.startswith('-') and not l.startswith('---'):
                    touched|=o[cur-1]; cur+=1
        if not touched and 'MKBUG_OUT' not in os.environ: return id,'touches no original line'
        bd=d+'/b'; os.mkdir(bd)
        open(bd+'/main.rs','w').write(b['demo'])
        open(bd+'/demo.sh','w').write(DEMO.replace('@PRE@',b.get('pre','')).replace('@ARGS@',b.get('args','')))
        r=sh('bash %s/demo.sh'%bd,REPO)
        if r.returncode: return id,'demo fails on the unchanged tree: '+r.stderr[-1500:]
        r=sh('bash %s/demo.sh'%bd,c)
        if not r.returncode: return id,'demo passes with the patch'
        if 'could not compile' in r.stderr: return id,'does not compile: '+r.stderr[-1500:]
        tail=r.stderr[-300:]
        r=sh('cargo test --offline --no-fail-fast 2>&1',c,{'CARGO_TARGET_DIR':d+'/t','RUSTFLAGS':'-Awarnings'})
        open(d+'/log','w').write(r.stdout)
        sh('python3 /opt/vp/results.py %s/res.json cargo:%s/log'%(d,d),d)
        ok=set(json.load(open(d+'/res.json'))['passed'])
        miss=[s for s in json.load(open('/opt/vp/BASELINE.json'))['stable'] if s not in ok]
        if miss: return id,'stable tests fail: %s\n%s'%(miss[:5],r.stdout[-300:])
        o=OUT+'/'+id; os.makedirs(o,exist_ok=True)
        for f in ('main.rs','demo.sh'): shutil.copy(bd+'/'+f,o+'/'+f)
        open(o+'/patch.diff','w').write(diff)
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(o+'/meta.json','w'),indent=1)
        return id,'KEPT '+tail.strip().replace('\n',' | ')[-160:]
    finally:
        shutil.rmtree(d)
bugs=runpy.run_path(sys.argv[1])['BUGS']
want=set(sys.argv[2:])
with ThreadPoolExecutor(4) as ex:
    for id,res in ex.map(one,[b for b in bugs if not want or b['id'] in want]): print(id,':',res,flush=True)
