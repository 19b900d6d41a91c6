#!/usr/bin/env python3
"""Mutation helper: mut.py FILE.py runs the mutants listed in FILE.py
(MUTS = [(name, file, old, new, expected ids or ""), ...]) against the checks in IDS."""
import sys, os, subprocess, shutil, importlib.util, concurrent.futures as cf
spec=importlib.util.spec_from_file_location("m",sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only=sys.argv[2:]
env=dict(os.environ)
for l in subprocess.run("bash -c '. /opt/vp/env.sh; env'",shell=True,capture_output=True,text=True).stdout.splitlines():
    if '=' in l: k,v=l.split('=',1); env[k]=v
def one(mt):
    name,edits,exp=mt[0],mt[1],mt[2]
    w="/tmp/mut/"+name
    shutil.rmtree(w,ignore_errors=True)
    subprocess.run(["cp","-a","/repo",w],check=True)
    out=[]
    for f,old,new in edits:
        p=os.path.join(w,f); s=open(p).read()
        if s.count(old)<1:
            shutil.rmtree(w); return name,"OLD TEXT NOT FOUND in "+f
        s=s.replace(old,new) if len(edits)==0 else s.replace(old,new,1)
        open(p,"w").write(s)
    b=subprocess.run(["go","build","./..."],cwd=w+"/go",env=env,capture_output=True,text=True)
    if b.returncode: 
        shutil.rmtree(w); return name,"BUILD "+b.stderr[:600]
    got=[];det=[]
    for i in (mt[3] if len(mt)>3 else m.IDS):
        r=subprocess.run([here+"/bin/crlitecheck","-repo",w,"-verif",w+".v","-tier","quick",i],env=env,capture_output=True,text=True)
        if r.returncode==1: got.append(i); det.append("   "+"\n   ".join(x[:230] for x in r.stdout.splitlines() if not x.startswith("VIOLATION"))[:700])
        elif r.returncode!=0: got.append(i+"(rc%d)"%r.returncode); det.append("   "+(r.stdout+r.stderr)[-400:])
    shutil.rmtree(w); shutil.rmtree(w+".v",ignore_errors=True)
    ok=" ".join(got)==exp
    return name,("ok   " if ok else "DIFF ")+"got[%s] want[%s]"%(" ".join(got),exp)+("" if ok else "\n"+"\n".join(det))
ms=[x for x in m.MUTS if not only or x[0] in only]
with cf.ThreadPoolExecutor(4) as ex:
    for n,r in ex.map(one,ms): print(n,":",r,flush=True)
