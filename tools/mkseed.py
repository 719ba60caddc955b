# usage: mk.py ID PROP file  (old/new from stdin as python literal list of (file,old,new)), needs, breaks
import sys, json, os, subprocess
spec = eval(sys.stdin.read())
WT="/tmp/wt/repo"
subprocess.run("git checkout -q -- . && git checkout -q --detach $(git -C /repo rev-parse HEAD)",shell=True,cwd=WT,check=True)
for f,o,n in spec["edits"]:
    p=WT+"/"+f; s=open(p).read()
    assert s.count(o)==1,(f,s.count(o),o)
    open(p,"w").write(s.replace(o,n))
d="/verif/seeded/"+spec["id"]; os.makedirs(d,exist_ok=True)
open(d+"/patch.diff","w").write(subprocess.run("git diff",shell=True,cwd=WT,capture_output=True,text=True).stdout)
subprocess.run("git checkout -q -- .",shell=True,cwd=WT)
json.dump({"property":spec["prop"],"needs":spec["needs"],"what_it_breaks":spec["breaks"]},open(d+"/meta.json","w"),indent=1)
open(d+"/demo.sh","w").write("#!/bin/bash\nexec /opt/veriftools/pyvenv/bin/python3 \"$(dirname \"$0\")/demo.py\"\n")
open(d+"/demo.py","w").write(spec["demo"])
for l in spec.get("libs",[]):
    os.makedirs(d+"/lib",exist_ok=True)
    open(d+"/lib/__init__.py","w")
    subprocess.run(["cp","/verif/lib/"+l+".py",d+"/lib/"])
print(spec["id"],"ok")
