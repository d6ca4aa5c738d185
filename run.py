#!/usr/bin/env python3
"""Build and run the check of one property.  usage: run.py Cxx [--replay FILE] [--keep] [--only SCENARIO]
Exit 0: held on everything explored.  1: VIOLATION line printed.  2: the check itself failed."""
import json, os, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf
for _s in (sys.stdout,sys.stderr): _s.reconfigure(errors="replace")
HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get("VERIF_REPO","/repo")
sys.path.insert(0,HERE)
import checks

def log(*a): print(*a,file=sys.stderr,flush=True)

def compile_all(units,jobs):
    def one(u):
        t=time.time()
        r=subprocess.run(u["cmd"],capture_output=True,text=True,errors="replace")
        return u,r,time.time()-t
    ok=True
    with cf.ThreadPoolExecutor(jobs) as ex:
        for u,r,dt in ex.map(one,units):
            if os.environ.get("VERIF_TIMING"): log("  %.1fs %s"%(dt,u["src"]))
            if r.returncode:
                ok=False
                log("compile failed:",u["src"]); log(r.stderr[-6000:])
    return ok

def build(prop,variant,bdir):
    """variant: dict from checks.py"""
    objs=[];units=[]
    os.makedirs(bdir,exist_ok=True)
    base=["-std=c++20","-g1","-fno-omit-frame-pointer","-Wno-deprecated-declarations","-w"]
    base+=variant.get("flags",[])
    inc=[f"-I{HERE}/mc"]+[f"-I{HERE}/{d}" for d in variant.get("shims",[])]+[f"-I{REPO}/include",f"-I{HERE}/harness",f"-I{bdir}/gen"]
    defs=variant.get("defines",checks.DEFINES)
    cxx=variant.get("cxx","g++")
    def unit(src,extra,tag):
        o=f"{bdir}/{tag}.o"
        units.append({"src":src,"cmd":[cxx]+base+extra+defs+inc+["-c",src,"-o",o]})
        objs.append(o)
    gen=f"{bdir}/gen"; os.makedirs(gen,exist_ok=True)
    pre=["-include",f"{HERE}/mc/exit_shim.hpp"]
    for i,s in enumerate(variant["harness"]):
        unit(f"{HERE}/harness/{s}",variant.get("hflags",["-O1"])+pre,f"h{i}")
    for i,s in enumerate(variant.get("support",[])):
        unit(f"{HERE}/{s}",variant.get("sflags",["-O1"]),f"s{i}")
    for i,s in enumerate(variant["sources"]):
        unit(f"{REPO}/{s}",variant.get("rflags",["-O1"])+pre,f"r{i}")
    unit(f"{HERE}/mc/mc.cpp",["-O1"],"mc")
    if not compile_all(units,os.cpu_count() or 8): return None
    # link_orders: permutations of the harness objects (program start-up orders)
    nh=len(variant["harness"]); exes=[]
    orders=variant.get("link_orders") or [tuple(range(nh))]
    def link(k):
        exe=f"{bdir}/{prop}-{k}.exe"
        o=[objs[i] for i in orders[k]]+objs[nh:]
        r=subprocess.run([cxx]+base+variant.get("lflags",[])+o+["-o",exe]+variant.get("libs",[]),capture_output=True,text=True,errors="replace")
        return exe,r
    def link_all():
        with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex: return list(ex.map(link,range(len(orders))))
    rs=link_all()
    if any(r.returncode and "undefined reference" in r.stderr for _,r in rs):
        # code may have moved to a file that is not in the list: offer the other sources as a library
        import glob
        have={f"{REPO}/{s}" for s in variant["sources"]}; extra=[]
        def one(x):
            i,s=x; o=f"{bdir}/lib{i}.o"
            r=subprocess.run([cxx]+base+variant.get("rflags",["-O1"])+pre+defs+inc+["-c",s,"-o",o],capture_output=True,text=True,errors="replace")
            return o if r.returncode==0 else None
        with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            extra=[o for o in ex.map(one,enumerate(s for s in sorted(glob.glob(f"{REPO}/src/**/*.cpp",recursive=True)) if s not in have)) if o]
        if extra:
            subprocess.run(["ar","rcs",f"{bdir}/librest.a"]+extra,check=True)
            objs.append(f"{bdir}/librest.a")
            rs=link_all()
    for exe,r in rs:
        if r.returncode:
            log("link failed"); log(r.stderr[-6000:]); return None
        exes.append(exe)
    return exes

def startup_crash(prop,exe,vdir,vi,env,k):
    """the program ended before exploring anything: is it the code's start-up that fails?"""
    outs=[]
    for _ in range(2):
        r=subprocess.run([exe,"--noop"],capture_output=True,text=True,errors="replace",env=env)
        if r.returncode==0: return None
        outs.append(r.returncode)
    f=f"{vdir}/{prop}.startup.{k}.replay"
    open(f,"w").write(f"property {prop}\nscenario program-start\nsignature crash-startup\nmessage the program fails before main (status {outs[0]})\nlinkorder {k}\npath \n"+r.stderr[-3000:])
    return dict(file=f,sig="crash-startup",msg=f"the program fails while starting (status {outs[0]}), link order {k}",scenario="program-start")

def main():
    prop=sys.argv[1]
    args=sys.argv[2:]
    tier=os.environ.get("VERIF_TIER","quick")
    if tier not in("quick","thorough"): tier="quick"
    if "--thorough" in args: tier="thorough"
    seed=int(os.environ.get("VERIF_SEED","1") or 1)
    t0=time.time()
    c=checks.CHECKS[prop]
    os.makedirs(f"{HERE}/.build",exist_ok=True); os.makedirs(f"{HERE}/replays",exist_ok=True); os.makedirs(f"{HERE}/evidence",exist_ok=True)
    work=tempfile.mkdtemp(prefix=prop+"-",dir=f"{HERE}/.build")
    try:
        rc=run(prop,args,tier,seed,t0,c,work)
    finally:
        if "--keep" not in args: shutil.rmtree(work,ignore_errors=True)
        else: log("kept",work)
    sys.exit(rc)

def known_for(prop):
    p=f"{HERE}/known_findings.json"
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["findings"] if k["property"]==prop and k.get("status","open")=="open"]

def run(prop,args,tier,seed,t0,c,work):
    cap=c.get("cap",{}).get(tier,700 if tier=="quick" else 6*3600)
    variants=c["variants"](tier) if callable(c["variants"]) else c["variants"]
    tot=dict(executions=0,transitions=0,states=0,pruned=0); scen=[];samples=[];vios=[];known={};capped=False;error=False;orders_seen=0;any_reduced=False
    kf=f"{work}/known.tsv"
    kn=known_for(prop)
    with open(kf,"w") as f:
        for k in kn: f.write(k["signature"]+"\t"+k["text"].replace("\n"," ")+"\n")
    bt=0; skipped=[]
    for vi,v in enumerate(variants):
        b0=time.time()
        vdir=f"{work}/v{vi}"
        if "generate" in v:
            os.makedirs(vdir+"/gen",exist_ok=True); v["generate"](REPO,vdir+"/gen")
        exes=build(prop,v,vdir); reduced=False
        if not exes and "fallback_defines" in v:
            # some types of the harness no longer compile with this tree: what still does can show a violation, never a pass
            log("building the reduced harness")
            v=dict(v,defines=v.get("defines",checks.DEFINES)+v["fallback_defines"]); reduced=True; any_reduced=True
            exes=build(prop,v,vdir+"r")
        bt+=time.time()-b0
        if not exes and v.get("optional"):
            # a back end this tree can not be compiled against: the evidence says that it was not explored
            print(f"NOTE: {prop}: variant {v.get('name')} could not be built against this tree and was not explored")
            skipped.append(v.get("name","default")); continue
        if not exes:
            log("the check could not be built against this tree"); return 2
        env=dict(os.environ); env.update(v.get("env",{}))
        if "--replay" in args:
            f=args[args.index("--replay")+1]
            hdr=dict(l.split(" ",1) for l in open(f,encoding="latin-1").read().split("\ntrace")[0].splitlines() if " " in l)
            if hdr.get("variant",v.get("name","default"))!=v.get("name","default"): continue
            exe=exes[int(hdr.get("linkorder","0"))]
            if hdr.get("scenario")=="program-start": return 1 if subprocess.run([exe,"--noop"],env=env).returncode else 0
            r=subprocess.run([exe,"--property",prop,"--tier",tier,"--out",vdir,"--replay",f],env=env)
            if r.returncode in(0,1,3): return 1 if r.returncode else 0
            continue
        def explore(k):
            exe=exes[k]; out=f"{vdir}/x{k}"; os.makedirs(out,exist_ok=True)
            res=f"{out}/result.json"
            jobs=(os.cpu_count() or 8) if len(exes)==1 else 1
            cmd=[exe,"--property",prop,"--tier",tier,"--out",out,"--result",res,"--known",kf,"--jobs",str(jobs),"--cap",str(cap/len(variants))]
            if "--only" in args: cmd+=["--only",args[args.index("--only")+1]]
            r=subprocess.run(cmd,capture_output=True,text=True,errors="replace",env=env)
            if r.stderr and (r.returncode not in (0,1) or os.environ.get("VERIF_TIMING") or "--verbose" in args): log(r.stderr[-4000:])
            if not os.path.exists(res):
                x=startup_crash(prop,exe,vdir,vi,env,k)
                if x: return k,r,dict(executions=1,transitions=0,states=0,pruned=0,scenarios=[],samples=[],known=[],violations=[x],capped=False,error=False)
                log("explorer ended with",r.returncode,r.stderr[-2000:]); return k,r,None
            return k,r,json.loads(open(res,encoding="utf-8",errors="replace").read(),strict=False)
        with cf.ThreadPoolExecutor(1 if len(exes)==1 else (os.cpu_count() or 8)) as ex:
            results=list(ex.map(explore,range(len(exes))))
        if any(d is None for _,_,d in results): return 2
        merged=None
        for k,r,d in results:
            for x in d["violations"]: x["linkorder"]=k; x["stderr"]=r.stderr[-1500:]
            if r.returncode==2: d["error"]=True
            if merged is None: merged=d; continue
            for key in("executions","transitions","states","pruned"): merged[key]+=d[key]
            for a,b in zip(merged["scenarios"],d["scenarios"]):
                for key in("executions","transitions","distinct_states","pruned"): a[key]+=b[key]
                a["complete"]=a["complete"] and b["complete"]
            merged["known"]+=d["known"]; merged["violations"]+=d["violations"]
            merged["capped"]|=d["capped"]; merged["error"]|=d["error"]
        d=merged
        if len(exes)>1:
            orders_seen+=len(exes)
        for k in("executions","transitions","states","pruned"): tot[k]+=d[k]
        for s in d["scenarios"]:
            s["variant"]=v.get("name","default"); scen.append(s)
        samples+=d["samples"]
        for k in d["known"]: known[k["sig"]]=k["msg"]
        for x in d["violations"]:
            x["variant"]=v.get("name","default")
            vios.append(x)
        capped|=d["capped"]; error|=d["error"]
        if vios: break
    if "--replay" in args: return 2
    if len(skipped)==len(variants): log("the check could not be built against this tree"); return 2
    cov={"states":tot["states"],"transitions":tot["transitions"],"traces_validated_against_impl":tot["executions"],
         "samples":samples[:12],"exhaustive":(not capped and not error and not vios and not skipped),"pruned_executions":tot["pruned"],
         "scenarios":scen,"build_s":round(bt,2),
         "bounds":c.get("bounds",""),"known_findings_observed":sorted(known)}
    if skipped: cov["variants_not_explored"]=skipped
    if orders_seen: cov["link_orders"]=orders_seen
    ev={"property":prop,"tier":tier,"seed":seed,"level":"model_checking","coverage":cov,
        "assumptions":c.get("assumptions",[]),"wall_s":round(time.time()-t0,2),"violations":len(vios)}
    tmp=f"{HERE}/evidence/{prop}.json.tmp"
    json.dump(ev,open(tmp,"w"),indent=1); os.replace(tmp,f"{HERE}/evidence/{prop}.json")
    for k in kn:
        if k["signature"] in known: print(f"KNOWN-FINDING: property={prop} {k['text']}")
    if vios:
        for x in vios:
            dst=f"{HERE}/replays/"+os.path.basename(x["file"])
            try:
                body=open(x["file"],encoding="latin-1").read()
                open(dst,"w",encoding="latin-1",errors="replace").write(f"variant {x['variant']}\nlinkorder {x.get('linkorder',0)}\n"+body)
            except OSError: dst=x["file"]
            print(f"{x['scenario']} [{x['sig']}] {x['msg']}")
            if x["sig"].startswith("crash"):
                print("\n".join(l for l in x["stderr"].splitlines() if "ERROR" in l or l.strip().startswith("#"))[:1500])
            print(f"replay with: python3 {HERE}/run.py {prop} --replay {dst}")
            print(f"VIOLATION property={prop} replay={dst}")
            break
        return 1
    if any_reduced:
        log("only the reduced harness could be built against this tree"); return 2
    if error: 
        log("the explorer reported an internal error"); return 2
    print(f"{prop}: held on {tot['executions']} executions, {tot['transitions']} transitions, {tot['states']} distinct states"+(" (CAPPED)" if capped else " (exhaustive within bounds)")+(f" (not explored: {", ".join(skipped)})" if skipped else "")+f" in {time.time()-t0:.1f}s")
    return 0
if __name__=="__main__": main()
