#!/usr/bin/env python3
"""Development tool (no check uses it): verifies planted bugs in scratch copies of /repo.
  plant.py make <bugs.py>         create seeded/<id>/ from a python list of bugs
  plant.py verify [-n] <id>...    clean demo, patched build, stable tests, patched demo, the property's quick check
"""
import sys, os, subprocess, json, shutil, re, hashlib
V="/verif"; S=V+"/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def copy(dst):
    shutil.rmtree(dst, ignore_errors=True); subprocess.check_call(["cp","-a","/repo",dst])
def scripts(repo):
    d=repo+".vp"; os.makedirs(d, exist_ok=True)
    for f in os.listdir("/opt/vp"):
        p="/opt/vp/"+f
        if os.path.isfile(p):
            t=open(p,errors="replace").read().replace("/opt/vp",d).replace("/repo",repo); open(d+"/"+f,"w").write(t)
    return d
DEMO='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
%s
cd "$t" && %s timeout 250 ./demo
'''
def demo_sh(kind):
    if kind=="lib": return DEMO%('g++ -std=c++17 -O1 -DNDEBUG -march=x86-64-v2 -I include -I src "$here/demo.cpp" _build/lib/libroutingkit.a -fopenmp -lz -pthread -o "$t/demo" || exit 3','')
    if kind in("asan","tsan"):
        fl={"asan":"-fsanitize=address,undefined -fno-sanitize-recover=all","tsan":"-fsanitize=thread"}[kind]
        return DEMO%('''ls src/*.cpp | while read f; do grep -q 'int main' "$f" || echo "$f"; done > "$t/list"
xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O1 -g -DNDEBUG -march=x86-64-v2 %s -fopenmp -I include -I src -c {} -o "'"$t"'/$(basename {}).o"' < "$t/list" || exit 3
g++ -std=c++17 -O1 -g -DNDEBUG -march=x86-64-v2 %s -I include -I src "$here/demo.cpp" "$t"/*.o -fopenmp -lz -pthread -o "$t/demo" || exit 3'''%(fl,fl), 'ASAN_OPTIONS=detect_leaks=0')
def make(path):
    env={"bugs":[]}
    def bug(id,prop,edits,needs,breaks,demo,kind="lib",extra=None): env["bugs"].append((id,prop,edits,needs,breaks,demo,kind,extra or {}))
    env["bug"]=bug; exec(open(path).read(),env)
    w="/tmp/plant.mk"; shutil.rmtree(w,ignore_errors=True); subprocess.check_call(["git","clone","-q","/repo",w])
    for id,prop,edits,needs,breaks,demo,kind,extra in env["bugs"]:
        sh("git checkout -q -- .",cwd=w)
        for f,a,b in edits:
            s=open(w+"/"+f).read()
            if s.count(a)!=1: print("BUG",id,f,"pattern occurs",s.count(a),"times:",a[:80]); break
            open(w+"/"+f,"w").write(s.replace(a,b))
        else:
            d=S+"/"+id; os.makedirs(d,exist_ok=True)
            open(d+"/patch.diff","w").write(subprocess.check_output(["git","diff"],cwd=w,text=True))
            open(d+"/demo.cpp","w").write(demo) if kind!="sh" else None
            open(d+"/demo.sh","w").write(demo if kind=="sh" else demo_sh(kind)); os.chmod(d+"/demo.sh",0o755)
            for n,t in extra.items(): open(d+"/"+n,"w").write(t)
            json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
            print("made",id)
    shutil.rmtree(w,ignore_errors=True)
def verify(id, notest=False):
    d=S+"/"+id; prop=json.load(open(d+"/meta.json"))["property"]; res=[]
    clean="/tmp/plant.clean"; head=subprocess.check_output("git -C /repo rev-parse HEAD",shell=True,text=True)
    if not os.path.exists(clean+"/.ok") or open(clean+"/.ok").read()!=head:
        copy(clean); vp=scripts(clean); r=sh("bash %s/build.sh"%vp); assert r.returncode==0,r.stdout[-2000:]; open(clean+"/.ok","w").write(head)
    r=sh(d+"/demo.sh",cwd=clean); res.append("clean demo %d"%r.returncode)
    if r.returncode: print(r.stdout[-1500:])
    m="/tmp/plant."+id; copy(m); vp=scripts(m)
    r=sh("git apply "+d+"/patch.diff",cwd=m); assert r.returncode==0,r.stdout
    r=sh("bash %s/build.sh"%vp); res.append("build %d"%r.returncode)
    if r.returncode: print(r.stdout[-1500:])
    if not notest:
        sh("bash %s/test.sh %s.json"%(vp,m)); t=json.load(open(m+".json")); res.append("tests %d/%d"%(len(t["passed"]),len(t["passed"])+len(t["failed"])))
        if t["failed"]: res.append("FAILED "+",".join(t["failed"]))
    r=sh(d+"/demo.sh",cwd=m); res.append("patched demo %d"%r.returncode)
    # blame: changed lines must come from the base commit
    base=open(d+"/patch.diff").read(); mine=[]
    f=None
    for l in base.splitlines():
        if l.startswith("--- a/"): f=l[6:]
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
            b=subprocess.run(["git","-C","/repo","show","ab79b80:"+f],stdout=subprocess.PIPE,text=True).stdout
            if l[1:] not in b.splitlines(): mine.append(l[1:].strip()[:60])
    if mine: res.append("NOT-BASE-LINES %s"%mine)
    e=dict(os.environ,VERIF_REPO=m,VERIF_BUILD="/tmp/plant.b"+os.environ.get("PLANT_W",""),VERIF_SEED=os.environ.get("VERIF_SEED","1"),VERIF_TIER="quick",VERIF_NOEVIDENCE="1")
    r=sh("python3 %s/run.py %s quick"%(V,prop),env=e)
    c="CAUGHT" if r.returncode==1 and "VIOLATION property=%s "%prop in r.stdout else "MISSED rc=%d"%r.returncode
    res.append(c)
    print(id,prop,"; ".join(res)); print("   ",[l for l in r.stdout.splitlines() if l.startswith("  [")][:1])
    shutil.rmtree(m,ignore_errors=True); shutil.rmtree(m+".vp",ignore_errors=True)
    if os.path.exists(m+".json"): os.unlink(m+".json")
if sys.argv[1]=="make": make(sys.argv[2])
else:
    a=sys.argv[2:]; n="-n" in a
    for i in a:
        if i!="-n": verify(i,n)
