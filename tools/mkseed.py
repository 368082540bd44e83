#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: makes seeded/ID from a spec on stdin (JSON: edits, needs, breaks, main).
edits: [[file, old, new], ...] applied to a temporary worktree of /repo's HEAD to get patch.diff."""
import json,os,shutil,subprocess,sys,tempfile
sid,prop=sys.argv[1:3]
ns={}
exec(sys.stdin.read(),ns)
wt=tempfile.mkdtemp(); os.rmdir(wt)
subprocess.check_call(["git","-C","/repo","worktree","add","-q","--detach",wt,"HEAD"])
try:
    for f,old,new in ns["edits"]:
        p=os.path.join(wt,f); s=open(p).read()
        assert s.count(old)==1,(f,s.count(old),old)
        open(p,"w").write(s.replace(old,new))
    diff=subprocess.check_output(["git","-C",wt,"diff"])
    cur=None
    for l in diff.decode().splitlines():
        if l.startswith("--- a/"):
            cur=subprocess.check_output(["git","-C","/repo","show",f"2a757f8:{l[6:]}"],text=True).splitlines()
        elif l.startswith("-") and not l.startswith("---"): assert l[1:] in cur,("not an original line",l)
finally:
    subprocess.check_call(["git","-C","/repo","worktree","remove","--force",wt])
d=f"/verif/seeded/{sid}"
shutil.rmtree(d,ignore_errors=True)
shutil.copytree("/verif/tools/demo",d)
open(d+"/patch.diff","wb").write(diff)
open(d+"/src/main.rs","w").write(ns["main"])
json.dump({"property":prop,"needs":ns["needs"],"what_it_breaks":ns["breaks"]},open(d+"/meta.json","w"),indent=1)
print("made",sid,len(diff))
