#!/usr/bin/env python3
"""Mutation campaign: small changes of the library's sources, run through the checks whose sources they touch.
usage: mutate.py WORK OUT.jsonl PER_FILE FILE... ; WORK holds a copy of /repo (WORK/repo) and of /verif (WORK/verif)."""
import json,os,re,sys,subprocess,random,time
W,OUT,PER=sys.argv[1],sys.argv[2],int(sys.argv[3]); FILES=sys.argv[4:]
R=f"{W}/repo"; V=f"{W}/verif"
sys.path.insert(0,V); sys.dont_write_bytecode=True
import checks
props={json.loads(l)["id"]:json.loads(l) for l in open(f"{V}/properties.jsonl")}
def deps():
    c=f"{W}/deps.json"
    if os.path.exists(c): return json.load(open(c))
    d={}
    for p,x in checks.CHECKS.items():
        vs=x["variants"]; vs=vs("quick") if callable(vs) else vs
        for v in vs:
            srcs=[f"{V}/harness/{h}" for h in v["harness"]]+[f"{R}/{s}" for s in v["sources"]]
            inc=[f"-I{V}/mc"]+[f"-I{V}/{s}" for s in v.get("shims",[])]+[f"-I{R}/include",f"-I{V}/harness"]
            r=subprocess.run(["g++","-std=c++20","-MM"]+v.get("defines",checks.DEFINES)+v.get("flags",[])+inc+srcs,capture_output=True,text=True)
            for f in set(re.findall(re.escape(R)+r"/(\S+)",r.stdout)): d.setdefault(f,[]).append(p)
    d={k:sorted(set(v)) for k,v in d.items()}
    json.dump(d,open(c,"w")); return d
D=deps()
def order(f):
    ps=D.get(f,[])
    a=[p for p in ps if f in props[p]["anchors"]["files"]]
    base=os.path.splitext(os.path.basename(f))[0].lower()
    return a+[p for p in ps if p not in a]
OPS=[(r" == "," != "),(r" != "," == "),(r" < "," <= "),(r" <= "," < "),(r" > "," >= "),(r" >= "," > "),(r" && "," || "),(r" \|\| "," && "),
 (r" \+ "," - "),(r" - "," + "),(r" \* "," / "),(r" / "," * "),(r" \+= "," -= "),(r" -= "," += "),(r" \+= "," = "),(r" \*= "," /= "),
 (r"\btrue\b","false"),(r"\bfalse\b","true"),(r"\b0\b","1"),(r"\b1\b","0"),(r"\b1\b","2"),(r"\b0\.5\b","0.25"),(r"\b1\.0\b","2.0"),
 (r"\bown\b","nei"),(r"\bnei\b","own"),(r"owner","neighbour"),(r"neighbour","owner"),(r"\.first\b",".second"),(r"\.second\b",".first"),
 (r"\bmin\(","max("),(r"\bmax\(","min("),(r"\.front\(\)",".back()"),(r"\.back\(\)",".front()"),(r"\.begin\(\)",".end()"),(r"\.end\(\)",".begin()"),
 (r"const auto& ","const auto "),(r"\bauto& ","auto "),(r"Kokkos::atomic_add","Kokkos::atomic_sub"),(r"Kokkos::atomic_sub","Kokkos::atomic_add"),
 (r"if \((.*)\)( \{|$|\s)",r"if (!(\1))\2"),(r"\+\+(\w+)",r"--\1"),(r"!(\w)",r"\1"),(r"std::move\(([^()]*)\)",r"\1"),(r"insert_or_assign","emplace"),(r"\.at\(","["),
 (r"nInternalFaces","nBoundaryFaces"),(r"static ",""),(r"break;",""),(r"continue;",""),(r"(\w+)\.size\(\)",r"\1.size() - 1"),(r"rowOffs\[","colIdx["),(r"\[i\]","[0]"),(r"\[facei\]","[0]"),(r"\[celli\]","[0]"),(r"&(\w+)\]",r"\1]")]
def mutants(f):
    L=open(f"{R}/{f}").read().split("\n"); out=[]; com=False
    for i,l in enumerate(L):
        s=l.strip()
        if s.startswith("/*"): com=True
        if com:
            if "*/" in s: com=False
            continue
        if not s or s.startswith(("//","*","#","template","namespace","using ","NF_DEBUG_ASSERT")): continue
        code=l.split("//")[0]
        for a,b in OPS:
            for m in re.finditer(a,code):
                if "<" in m.group(0) and "template" in code: continue
                if '"' in code[:m.start()] and code[:m.start()].count('"')%2: continue
                n=code[:m.start()]+m.expand(b)+code[m.end():]
                if n!=code: out.append((i,l,n))
        if re.match(r"^\s+[\w\.\->:\[\]\(\)\*&, <>]+(\(.*\)|[+\-*/]?= .*);$",code) and not s.startswith(("return","const","auto","using","static","friend","virtual","explicit","std::vector","std::string")) and not re.match(r"^\s+\w[\w:<>&\* ]* \w+( =|\().*;$",code): out.append((i,l,re.match(r"^\s*",l).group(0)+";"))
    seen=set();u=[]
    for x in out:
        if (x[0],x[2]) not in seen: seen.add((x[0],x[2])); u.append(x)
    return L,u
done=set()
if os.path.exists(OUT):
    for l in open(OUT):
        d=json.loads(l); done.add((d["file"],d["line"],d["new"]))
def run(ps,cap=3):
    res=[];built=False
    for p in ps[:cap]:
        t=time.time()
        try: r=subprocess.run(["python3",f"{V}/run.py",p,"quick"],capture_output=True,text=True,timeout=400,env=dict(os.environ,VERIF_REPO=R)); rc=r.returncode
        except subprocess.TimeoutExpired: rc=9; r=None
        res.append((p,rc,round(time.time()-t)))
        if rc==1: return "killed",p,res,[x for x in r.stdout.splitlines() if x.strip()][:1]
        if rc==2 and "compile failed" in r.stderr: return "nocompile",p,res,[]
        if rc==2: return "broken",p,res,[r.stderr[-300:]]
    return "survived","",res,[]
for f in FILES:
    ps=order(f)
    if not ps: print("no check touches",f,flush=True); continue
    L,M=mutants(f)
    rnd=random.Random(f); rnd.shuffle(M)
    k=0
    for i,old,new in M:
        if k>=PER: break
        if (f,i+1,new) in done: k+=1; continue
        X=list(L); X[i]=new
        open(f"{R}/{f}","w").write("\n".join(X))
        try: st,p,res,msg=run(ps)
        finally: open(f"{R}/{f}","w").write("\n".join(L))
        if st!="nocompile": k+=1
        open(OUT,"a").write(json.dumps(dict(file=f,line=i+1,old=old.strip(),new=new,status=st,by=p,runs=res,msg=msg))+"\n")
        print(st,f,i+1,old.strip()[:70],"->",new.strip()[:70],res,flush=True)
