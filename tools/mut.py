#!/usr/bin/env python3
"""mut.py FILE 'old' 'new' CHECK...: runs checks against a mutated copy"""
import sys,os,shutil,subprocess
f,old,new=sys.argv[1:4]
d="/tmp/mut_%d"%os.getpid()
shutil.copytree(os.environ.get("BASE","/repo/src"),d,symlinks=True)
p=d+"/rsfile/"+f
s=open(p).read()
if s.count(old)<1: print("NOT FOUND"); shutil.rmtree(d); sys.exit(3)
open(p,"w").write(s.replace(old,new,1))
env=dict(os.environ,RSFILE_SRC=d)
for c in sys.argv[4:]:
    r=subprocess.run(["/opt/venv/bin/python","/verif/check.py"]+c.split(),env=env,capture_output=True,text=True)
    out=(r.stdout+r.stderr).strip().splitlines()
    print(c,"exit",r.returncode); print("\n".join(l[:300] for l in out[-int(os.environ.get("N","12")):]))
shutil.rmtree(d)
