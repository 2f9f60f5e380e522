#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json,os,sys
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V); import props
with open(V+"/properties.jsonl","w") as f:
    for i,p in list(props.PROPS.items())+[(n["id"],n) for n in props.NOT_APPLICABLE]:
        assert len(p["title"])<=80,(i,len(p["title"]))
        f.write(json.dumps({"id":i,"title":p["title"],"statement":p["statement"],"quantifier":{"over":p["over"],"text":p["text"]},"why_tests_cant":p["why"],"anchors":{"files":p["files"],"mechanism":[{"name":a,"where":b} for a,b in p["mech"]]}})+"\n")
TECH="symbolic execution of the instrumented LLVM IR of the real code, assertions decided by exact normalisation and z3 over all values within the bounds, counterexamples replayed natively"
m={"version":1,"setup_cmd":"python3 run.py setup","checks":[{"property":i,"quick_cmd":"python3 run.py check %s --tier quick"%i,"thorough_cmd":"python3 run.py check %s --tier thorough"%i,"technique":p.get("technique",TECH),"level":"other","level_note":"Bounded, all values within: "+p["bounds"]+". "+p["note"]+". Exact arithmetic; see DESIGN.md for what is trusted."} for i,p in props.PROPS.items()],
 "not_applicable":[{"property":n["id"],"reason":n["reason"]} for n in props.NOT_APPLICABLE]}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
for i,p in props.PROPS.items():
    for x in p["files"]:
        if not os.path.exists("/repo/"+x): print("missing",x)
# ---- DESIGN.md
out=[open(V+"/DESIGN_head.md").read(),"## Properties\n"]
for i,p in props.PROPS.items():
    out.append("### %s %s\n%s\n\n* **Quantifies over:** %s.\n* **Why tests cannot settle it:** %s\n* **How it is decided:** harness%s %s; symbolic execution of %s. %s.\n* **Bounds:** %s.%s\n"%(i,p["title"],p["statement"],p["text"],p["why"],"es" if len(p["harnesses"])>1 else "",", ".join("`harness/%s`"%h["src"] for h in p["harnesses"]),", ".join("`%s`"%f for f in p["functions"]),p["note"],p["bounds"],("\n* **Assumptions:** "+"; ".join(p["assumptions"])+".") if p["assumptions"] else ""))
if props.NOT_APPLICABLE:
    out.append("## Not applicable\n")
    for n in props.NOT_APPLICABLE: out.append("* **%s %s** - %s\n"%(n["id"],n["title"],n["reason"]))
out.append("## Genuine defects found\nRepaired (one `fix:` commit each in /repo) and recorded in `known_findings.txt`:\n")
kf=open(V+"/known_findings.txt").read().splitlines()
for l in kf:
    if l.startswith("fixed:"): out.append("* "+l[6:].strip())
out.append("\nRecorded, not repaired (the check prints KNOWN-FINDING for them and stays quiet about nothing else):\n")
for l in kf:
    if l.startswith("finding:"): out.append("* "+l[8:].strip())
R=V+"/tools/plant_results.json"
if os.path.exists(R):
    r=json.load(open(R)); out.append("\n## Planted bugs and what catches them\n\n| bug | property | needs | caught by | labels |\n|---|---|---|---|---|")
    for b in sorted(r):
        try: mt=json.load(open(V+"/seeded/%s/meta.json"%b))
        except OSError: continue
        out.append("| %s | %s | %s | %s | %s |"%(b,mt["property"],mt["needs"].replace("|","/"),", ".join(c for c,v in r[b]["checks"].items() if v==1) or "**missed**",r[b].get("labels","")))
out.append("\n"+(open(V+"/DESIGN_tail.md").read() if os.path.exists(V+"/DESIGN_tail.md") else ""))
open(V+"/DESIGN.md","w").write("\n".join(out)+"\n")
