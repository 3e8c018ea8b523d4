#!/usr/bin/env python3
"""Development tool (no check uses it): mutation testing of the checks.
  mutate.py gen SEED N file...   -> prints mutants as json lines {file,line,old,new}
  mutate.py run list.jsonl out.jsonl worker_id   (props by file from MAP)
"""
import sys, os, re, json, random, subprocess, shutil
MAP={
"src/contraction_hierarchy.cpp":"C01 C02 C05 C06 C03 C12 C04 C35 C34 C36",
"include/routingkit/contraction_hierarchy.h":"C04 C06 C03 C12 C05",
"src/customizable_contraction_hierarchy.cpp":"C07 C08 C10 C11 C12 C06 C09 C35",
"include/routingkit/customizable_contraction_hierarchy.h":"C07 C08 C10 C12 C09",
"src/nested_dissection.cpp":"C13 C14 C35",
"include/routingkit/nested_dissection.h":"C13 C14 C35",
"include/routingkit/dijkstra.h":"C15 C06 C12",
"include/routingkit/id_queue.h":"C16 C15 C01","include/routingkit/id_set_queue.h":"C16 C10","include/routingkit/timestamp_flag.h":"C16 C06 C12",
"src/bit_vector.cpp":"C17 C18","include/routingkit/bit_vector.h":"C17","src/id_mapper.cpp":"C18","include/routingkit/id_mapper.h":"C18",
"include/routingkit/sort.h":"C19 C20","include/routingkit/permutation.h":"C19","include/routingkit/inverse_vector.h":"C19","include/routingkit/filter.h":"C19","include/routingkit/min_max.h":"C19",
"src/graph_util.cpp":"C20","include/routingkit/graph_util.h":"C20","src/bit_select.cpp":"C18","src/strongly_connected_component.cpp":"C21","include/routingkit/strongly_connected_component.h":"C21",
"src/geo_position_to_node.cpp":"C22","include/routingkit/geo_dist.h":"C22","include/routingkit/geo_position_to_node.h":"C22",
"src/buffered_asynchronous_reader.cpp":"C23","src/file_data_source.cpp":"C23 C25","src/protobuf.h":"C24","src/protobuf.cpp":"C24",
"src/osm_decoder.cpp":"C25 C26 C27 C35","src/osm_graph_builder.cpp":"C27 C28 C30 C35","src/osm_profile.cpp":"C29 C30 C28","src/osm_simple.cpp":"C30","src/vector_io.cpp":"C31","include/routingkit/vector_io.h":"C31","include/routingkit/tag_map.h":"C33",
"src/expect.cpp":"C32","src/dimacs.cpp":"C32",
}
TOOLS="C32"
REL=[("<=","<"),(">=",">"),("<","<="),(">",">="),("==","!="),("!=","==")]
def cands(line):
    """yield mutated versions of a line"""
    code=line.split("//")[0]
    s=code.strip()
    if not s or s.startswith("#") or s.startswith("template") or s.startswith("*") or "assert(" in s or s.startswith("using") or s.startswith("static_assert") or "include" in s or "log_message" in s or "micro_time" in s or "timer" in s or "cerr" in s: return
    ind=code[:len(code)-len(code.lstrip())]
    instr=[(m.start(),m.end()) for m in re.finditer(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])\'',code)]
    def ok(p): return not any(a<=p<b for a,b in instr)
    for m in re.finditer(r'(?<![<>=!\-])(<=|>=|==|!=|<|>)(?![<>=])',code):
        if not ok(m.start()): continue
        op=m.group(1)
        if op in("<",">") and re.search(r'(vector|cast|function|pair|array|unique_ptr|is_same|template|numeric_limits|remove|enable_if|numeric|set|map|decltype|shared_ptr|operator)\s*<',code): continue
        if op in("<",">"):
            pass
        for a,b in REL:
            if a==op: yield code[:m.start()]+b+code[m.end():]
    for m in re.finditer(r'&&|\|\|',code):
        if ok(m.start()): yield code[:m.start()]+("||" if m.group(0)=="&&" else "&&")+code[m.end():]
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',code):
        if ok(m.start()) and not "case" in code:
            v=int(m.group(1)); yield code[:m.start()]+str(v+1)+code[m.end():]
            if v>0: yield code[:m.start()]+str(v-1)+code[m.end():]
    for m in re.finditer(r'(?<![+\w(])\+(?![+=])',code):
        if ok(m.start()): yield code[:m.start()]+"-"+code[m.end():]
    for m in re.finditer(r'(?<=[\w)\]])\s*-(?![->=])',code):
        if ok(m.start()): yield code[:m.start()]+"+"+code[m.end():]
    for a,b in (("std::min(","std::max("),("std::max(","std::min("),("min_to(","max_to("),("forward","backward"),("backward","forward"),("tail","head"),("head","tail"),("first_out","first_in"),("true","false"),("false","true"),("upper_bound","lower_bound"),("lower_bound","upper_bound"),("source","target"),("target","source"),("&=","|="),("|=","&="),("+=","-="),("-=","+="),("++","--"),("std::stable_sort","std::sort"),("latitude","longitude"),("longitude","latitude"),(".begin()",".end()"),(".end()",".begin()")):
        for m in re.finditer(re.escape(a),code):
            if ok(m.start()): yield code[:m.start()]+b+code[m.end():]
    # statement deletion
    if s.endswith(";") and not re.match(r'(return|break;|continue;|const|auto|unsigned|int|bool|double|std::|typedef|using|throw|goto|case|float|char|uint|for|[\w:<>]+\s+\w+;|\w+\s+\w+\s*=|[\w:<>*&]+\s+\w+\(.*\)\s*(const)?;)',s) and s.count("(")==s.count(")"):
        yield ind+";"
    if s in("break;","continue;"): yield ind+";"
    if re.match(r'std::(sort|fill|move|swap|reverse)',s) and s.endswith(";"): yield ind+";"
    # condition forcing
    m=re.match(r'^(\s*(?:\}\s*else\s+)?if\s*\()(.*)(\)\s*\{?\s*)$',code.rstrip())
    if m and m.group(2).count("(")==m.group(2).count(")"):
        yield m.group(1)+"true || ("+m.group(2)+")"+m.group(3); yield m.group(1)+"false && ("+m.group(2)+")"+m.group(3)
def gen(seed,n,files):
    r=random.Random(seed)
    for f in files:
        L=open(os.environ.get("MREPO","/repo")+"/"+f).read().split("\n"); allm=[]; incom=False
        for i,l in enumerate(L):
            if "/*" in l: incom=True
            if not incom:
                for c in cands(l):
                    if c.strip()!=l.split("//")[0].strip(): allm.append((i,l,c))
            if "*/" in l: incom=False
        r.shuffle(allm); k=n if n>0 else len(allm)
        for i,l,c in allm[:k]: print(json.dumps(dict(file=f,line=i+1,old=l,new=c)))
def files(b):
    r=set()
    for d,_,fs in os.walk(b):
        for f in fs: r.add(d+"/"+f)
    return r
def check(m,repo,b,props):
    for only,scale in (("rel",os.environ.get("SC_REL","0.25")),("asan",os.environ.get("SC_ASAN","0.5")),("tsan","0.5")):
        for pr in (props or MAP.get(m["file"],TOOLS)).split():
            e=dict(os.environ,VERIF_REPO=repo,VERIF_BUILD=b,VERIF_SEED="1",VERIF_TIER="quick",VERIF_NOEVIDENCE="1",VERIF_ONLY=only,VERIF_SCALE=scale,VERIF_NCPU="1")
            try: r=subprocess.run(["python3",os.environ.get("VDIR","/tmp/w/verif")+"/run.py",pr,"quick"],env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",timeout=900)
            except subprocess.TimeoutExpired: return "TIMEOUT "+pr
            if r.returncode==1 and "VIOLATION" in r.stdout: return "KILLED "+pr+" "+only
            if r.returncode not in(0,1): return "ERR%d %s %s"%(r.returncode,pr,r.stdout[-300:])
    return "SURVIVED"
def run(lst,out,wid,props=None):
    repo="/tmp/mut/r"+wid; b="/tmp/mut/bb"+wid
    shutil.rmtree(repo,ignore_errors=True); subprocess.check_call(["git","clone","-q",os.environ.get("MREPO","/repo"),repo])
    done=set()
    if os.path.exists(out):
        for l in open(out): d=json.loads(l); done.add((d["file"],d["line"],d["new"]))
    base=None
    for l in open(lst):
        m=json.loads(l)
        if base is None or lastf!=m["file"]:
            lastf=m["file"]
            check(m,repo,b,props); base=files(b)
        if (m["file"],m["line"],m["new"]) in done: continue
        p=repo+"/"+m["file"]; t=open(p).read(); L=t.split("\n")
        if L[m["line"]-1]!=m["old"]: continue
        L[m["line"]-1]=m["new"]; open(p,"w").write("\n".join(L))
        res="SURVIVED"; 
        try:
            c=subprocess.run("g++ -fsyntax-only -std=c++17 -DNDEBUG -fopenmp -march=x86-64-v2 -I include -I src -x c++ "+m["file"],shell=True,cwd=repo,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            if c.returncode: res="NOCOMPILE"
            else:
                res=check(m,repo,b,props)
        finally:
            for f in files(b)-base:
                try: os.unlink(f)
                except OSError: pass
            open(p,"w").write(t)
        m["res"]=res; open(out,"a").write(json.dumps(m)+"\n")
if sys.argv[1]=="gen": gen(int(sys.argv[2]),int(sys.argv[3]),sys.argv[4:])
else: run(*sys.argv[2:])
