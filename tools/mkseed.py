#!/usr/bin/env python3
"""Creates /verif/seeded/<id> from seedspecs/*.py.  usage: mkseed.py [id...]"""
import glob,json,os,subprocess,sys,shutil,tempfile
REPO=os.environ.get("VERIF_REPO","/repo")
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE="src/core/dictionary.cpp src/core/demangle.cpp src/core/tokenList.cpp"
DB=CORE+" src/core/database/database.cpp src/core/database/collection.cpp src/core/database/document.cpp"
STENCIL=CORE+" src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"
SEEDS={}
def seed(id,prop,edits,demo,sources=CORE,needs="",breaks="",flags="",extra=None,prog=None):
    SEEDS[id]=dict(prop=prop,edits=edits,demo=demo,sources=sources,needs=needs,breaks=breaks,flags=flags,extra=extra or {},prog=prog)
for f in sorted(glob.glob(f"{H}/tools/seedspecs/*.py")): exec(open(f).read())
def make(id):
    s=SEEDS[id]; d=f"{H}/seeded/{id}"; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix="seedwt",dir="/tmp")
    try:
        subprocess.run(["git","-C",REPO,"worktree","add","-q","--detach",w+"/r"],check=True)
        for f,a,b in s["edits"]:
            p=f"{w}/r/{f}"; t=open(p).read(); assert t.count(a)==1,(id,f,t.count(a)); open(p,"w").write(t.replace(a,b))
        diff=subprocess.run(["git","-C",w+"/r","diff"],capture_output=True,text=True,check=True).stdout
        base=set()
        for f in {e[0] for e in s["edits"]}: base|=set(subprocess.run(["git","-C",REPO,"show","a4be30c:"+f],capture_output=True,text=True,check=True).stdout.split("\n"))
        minus=[l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        new=[l for l in minus if l not in base]
        if new or not minus: print("NOTE",id,"removes lines of our own commits:" if new else "removes no line",new)
        open(d+"/patch.diff","w").write(diff)
    finally:
        subprocess.run(["git","-C",REPO,"worktree","remove","--force",w+"/r"]); shutil.rmtree(w,ignore_errors=True)
    open(d+"/demo.cpp","w").write(s["demo"].lstrip())
    for n,src in s["extra"].items():
        if os.path.isdir(src): shutil.copytree(src,f"{d}/{n}",dirs_exist_ok=True)
        else: shutil.copy(src,f"{d}/{n}")
    prog=s["prog"] or f'''g++ -std=c++20 -O1 -w -DNF_WITH_GINKGO=0 -DNF_WITH_PETSC=0 -DNEOFOAM_DP_SCALAR=1 {s["flags"]} -I"$PWD/include" -I"$d" "$d/demo.cpp" {s["sources"]} -o "$t/demo" || exit 3
timeout 120 "$t/demo" 2>"$t/err"; rc=$?
[ $rc -eq 0 ] || tail -5 "$t/err"
exit $rc
'''
    open(d+"/demo.sh","w").write('#!/bin/bash\n# run with cwd = the repository\nset -u\nd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\n'+prog)
    os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
for i in (sys.argv[1:] or SEEDS): make(i); print("made",i)
