import sys, os, subprocess, json, textwrap, importlib.util
spec=importlib.util.spec_from_file_location("seeds",sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=sys.argv[2:]
PRE='''import os, sys, tempfile, pathlib
os.environ.setdefault("NUMBA_CACHE_DIR", tempfile.mkdtemp())
import numpy as np, gsply
from gsply import GSData
from gsply.gsdata import DataFormat
def scene(n, deg=0, seed=0):
    r = np.random.default_rng(seed); k = {0:0,1:3,2:8,3:15}[deg]
    f = lambda *s: r.normal(size=s).astype(np.float32)
    return GSData.from_arrays(f(n,3), f(n,3)-3, f(n,4), f(n), f(n,3), f(n,k,3) if k else None, format="ply")
FIELDS = ["means","scales","quats","opacities","sh0","shN"]
def check(cond, msg):
    if not cond:
        print("FAIL:", msg); sys.exit(1)
tmp = pathlib.Path(tempfile.mkdtemp())
'''
SH='''#!/bin/bash
# Run with cwd /repo after the build: exit 0 when the property holds, 1 when it is broken.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
export TMPDIR="$work" NUMBA_CACHE_DIR="$work/numba"
mkdir -p "$work/numba"
PYTHONPATH="$PWD/src" /opt/venv/bin/python "$here/demo.py"
exit $?
'''
for s in m.SEEDS:
    if only and s["id"] not in only: continue
    d=f"/verif/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
    w=f"/tmp/sd/w_{s['id']}"; subprocess.run(["rm","-rf",w]); subprocess.run(["cp","-a","/repo",w],check=True)
    for f,old,new in s["edits"]:
        p=f"{w}/{f}"; t=open(p).read()
        assert t.count(old)==s.get("count",1), (s["id"],f,t.count(old))
        open(p,"w").write(t.replace(old,new))
    diff=subprocess.run(["git","-C",w,"diff"],capture_output=True,text=True).stdout
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.sh","w").write(SH); os.chmod(d+"/demo.sh",0o755)
    open(d+"/demo.py","w").write(PRE+textwrap.dedent(s["demo"]).strip()+"\nprint('ok')\n")
    json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
    print(s["id"],len(diff.splitlines()))
    subprocess.run(["rm","-rf",w])
