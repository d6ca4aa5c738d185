#!/usr/bin/env python3
"""Composes DESIGN.md."""
import json,os,re,glob
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X=f"{H}/tools/design"
D={}
exec(open(f"{X}/props.py").read())
out=[open(f"{X}/head.md").read()]
man=json.load(open(f"{H}/MANIFEST.json")); claimed={c["property"]:c for c in man["checks"]}; na={c["property"]:c["reason"] for c in man["not_applicable"]}
def scen(i):
    r=[]
    for f in sorted(glob.glob(f"{H}/harness/{i}*.cpp")):
        t=open(f).read()
        for m in re.finditer(r'MC_SCENARIO\(\s*(\w+)\s*,\s*((?:"(?:[^"\\]|\\.)*"\s*)+)\)',t):
            r.append((m.group(1),"".join(re.findall(r'"((?:[^"\\]|\\.)*)"',m.group(2)))))
    return r
for l in open(f"{H}/properties.jsonl"):
    p=json.loads(l); i=p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i in na: out.append(f"Not claimed: {na[i]}\n"); continue
    out.append(D.get(i,"")+"\n")
    out.append("Bounds and assumptions: "+claimed[i]["level_note"].split("the compiler. ")[-1]+"\n")
    out.append("Deciding method: "+claimed[i]["technique"]+".\n")
    s=scen(i)
    if s: out.append("\n".join(f"* `{n}`: {b}" for n,b in s)+"\n")
out.append(open(f"{X}/tail.md").read())
out.append("\n## 4. Findings\nDefects found in NeoFOAM by the checks. Repaired ones are `fix:` commits in /repo; open ones are reported as KNOWN-FINDING.\n")
kf=json.load(open(f"{H}/known_findings.json"))["findings"]
for f in kf:
    out.append(f"* {f['property']} "+(f"fixed in {f['commit']}: {f['text'].split(f['commit'],1)[1].strip()}" if f["status"]=="fixed" else f"**open** (`{f['signature']}`): {f['text']}. {f.get('why','')}"))
if os.path.exists(f"{X}/open.md"): out.append("\n"+open(f"{X}/open.md").read())
if os.path.exists(f"{X}/seeds.md"): out.append("\n"+open(f"{X}/seeds.md").read())
out.append("\n| planted bug | property | needs |\n|---|---|---|")
first={}
for m in sorted(glob.glob(f"{H}/seeded/*/meta.json")):
    d=json.load(open(m)); n=os.path.basename(os.path.dirname(m))
    out.append(f"| `{n}` | {d['property']} | {d['needs']} |")
open(f"{H}/DESIGN.md","w").write("\n".join(out)+"\n")
