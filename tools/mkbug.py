import os, sys, shutil, subprocess, json, textwrap, tempfile
ORIG="ffea3a2"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def ns(copy, cmd, timeout=900, env=None):
    e=dict(os.environ, **(env or {}))
    return subprocess.run(["unshare","-Urm","bash","-c","mount --bind %s /repo && %s"%(copy,cmd)],capture_output=True,text=True,timeout=timeout,env=e)
def build(bid, prop, needs, breaks, edits, demo, tests=True, checks=None, reps=3):
    d="/verif/seeded/"+bid
    os.makedirs(d,exist_ok=True)
    c=tempfile.mkdtemp(prefix="bug_"+bid+"_",dir="/tmp"); os.rmdir(c)
    sh("cp -a /repo "+c)
    sh("git -C %s checkout -q -f HEAD && git -C %s clean -fdq"%(c,c))
    for f,old,new in edits:
        p=c+"/src/rsfile/"+f
        s=open(p).read()
        if s.count(old)!=1: print(bid,"EDIT: count",s.count(old),old); shutil.rmtree(c); return False
        open(p,"w").write(s.replace(old,new))
    # removed/context lines must be original
    diff=sh("git -C %s diff"%c).stdout
    open(d+"/patch.diff","w").write(diff)
    bl=0; n=0
    for f in {e[0] for e in edits}:
        blame=sh("git -C %s blame -s HEAD -- src/rsfile/%s"%(c,f)).stdout.splitlines()
        d0=sh("git -C %s diff -U0 -- src/rsfile/%s"%(c,f)).stdout.splitlines()
        import re
        for l in d0:
            m=re.match(r"@@ -(\d+)(?:,(\d+))? ",l)
            if m:
                a=int(m[1]); k=int(m[2] or 1)
                for i in range(a,a+k):
                    n+=1
                    if not blame[i-1].startswith("^") : bl+=0 if sh("git -C %s merge-base --is-ancestor %s %s"%(c,blame[i-1].split()[0].lstrip('^'),ORIG)).returncode==0 else 1
    print(bid,"removed lines",n,"of which not original",bl)
    open(d+"/demo.py","w").write(textwrap.dedent(demo).lstrip())
    open(d+"/demo.sh","w").write('#!/bin/bash\n# cwd: /repo\nd=$(cd "$(dirname "$0")" && pwd)\nw=$(mktemp -d)\ntrap \'rm -rf "$w"\' EXIT\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src timeout 250 /opt/venv/bin/python "$d/demo.py" "$w"\n')
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
    ok=True
    for i in range(reps):
        r=ns("/repo","cd /repo && bash %s/demo.sh"%d)
        if r.returncode: ok=False; print(bid,"DEMO fails on the unchanged tree:",r.returncode,r.stdout[-400:],r.stderr[-800:]); break
    r=ns(c,"cd /repo && bash %s/demo.sh"%d)
    if r.returncode==0: ok=False; print(bid,"DEMO passes with the bug:",r.stdout[-300:],r.stderr[-300:])
    else: print(bid,"demo with bug:",r.returncode,(r.stdout+r.stderr).strip().splitlines()[-1:])
    if tests and ok:
        r=ns(c,"bash /opt/vp/build.sh && bash /opt/vp/test.sh %s.json"%c)
        t=json.load(open(c+".json")); b=json.load(open('/opt/vp/BASELINE.json'))
        miss=sorted(set(b['stable'])-set(t['passed']))
        os.unlink(c+".json")
        if miss: ok=False; print(bid,"TESTS broken:",miss[:5],len(miss))
        else: print(bid,"tests pass")
    for k in (checks if checks is not None else [prop]):
        r=subprocess.run(["python3","/verif/check.py"]+k.split(),env=dict(os.environ,RSFILE_SRC=c+"/src"),capture_output=True,text=True)
        v=[l for l in r.stdout.splitlines() if "violated" in l]
        print(bid,"check",k,"exit",r.returncode,v, r.stderr[-300:] if r.returncode not in(0,1) else "")
    shutil.rmtree(c)
    if not ok: print(bid,"*** REJECTED")
    return ok
