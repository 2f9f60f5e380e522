#!/usr/bin/env python3
"""Plant a bug: plant.py make SPEC.py  (SPEC defines id, property, needs, breaks, edits=[(file,old,new)], demo=C++ source, optional flags)
   plant.py try ID [--checks C01,C02] : apply to /repo, build, test, demo, run the checks, undo."""
import sys,os,subprocess,json,shutil,runpy
V="/verif"; R="/repo"
DEMO='''#!/bin/bash
# exit 0 when the property holds for this program, nonzero otherwise; works in a scratch directory of its own
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build/core; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O0 -w -DBOOST_LOG_DYN_LINK -I$B/include -I$R/core/include/bertini2 -I$R/core/include -I/usr/include/eigen3 "$D/demo.cpp" -L$B/.libs -lbertini2 -Wl,-rpath,$B/.libs -lmpc -lmpfr -lgmp -lboost_serialization -lboost_log -lboost_filesystem -lboost_system -lboost_thread -lboost_regex -lboost_chrono -lpthread -o "$T/demo" || exit 9
cd "$T" && timeout 120 ./demo
'''
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
def make(spec):
    s=runpy.run_path(spec) if isinstance(spec,str) else spec
    d=V+"/seeded/"+s['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    assert sh("git -C /repo status --porcelain").stdout.strip()=="" ,"repo dirty"
    for f,o,n in s['edits']:
        p=R+"/"+f; t=open(p).read(); assert t.count(o)==1,(s['id'],f,t.count(o),o); open(p,"w").write(t.replace(o,n))
    open(d+"/patch.diff","w").write(sh("git -C /repo diff").stdout); sh("git -C /repo checkout -- .")
    open(d+"/demo.cpp","w").write(s['demo']); open(d+"/demo.sh","w").write(DEMO); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+"/meta.json","w"),indent=1)
def stable():
    b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/plant_t.json'))['passed']); return sorted(b-p)
def tryit(i,checks=None,skiptest=False,demo=True):
    d=V+"/seeded/"+i; m=json.load(open(d+"/meta.json")); res={"id":i}
    try:
        r=sh("git -C /repo apply %s/patch.diff"%d); assert r.returncode==0,r.stdout
        if demo:
            r=sh("bash /opt/vp/build.sh"); res['build']=r.returncode
            if r.returncode: res['log']=r.stdout[-1500:]
            else:
                if not skiptest:
                    sh("bash /opt/vp/test.sh /tmp/plant_t.json"); res['tests_lost']=stable()[:5]
                r=sh("bash %s/demo.sh"%d,cwd=R); res['demo_bug']=r.returncode; res['demo_out']=r.stdout[-400:]
        for c in (checks or [m['property']]):
            r=sh("python3 run.py check %s"%c,cwd=V); res['check_'+c]=r.returncode; res['out_'+c]="\n".join(l for l in r.stdout.splitlines() if l.startswith(("VIOL","  assert","property","BUILD","ERROR")))[:700]
    finally: sh("git -C /repo checkout -- .")
    import re
    RF=V+"/tools/plant_results.json"; rr=json.load(open(RF)) if os.path.exists(RF) else {}
    cur=rr.setdefault(i,{"checks":{}}); cur['checks'].update({k[6:]:v for k,v in res.items() if k.startswith('check_')}); cur['labels']=", ".join(sorted(set(re.findall(r'assertion (\S+) at','\n'.join(str(v) for k,v in res.items() if k.startswith('out_'))))))
    json.dump(rr,open(RF,'w'),indent=1)
    return res
if __name__=="__main__":
    if sys.argv[1]=="make":
        g=runpy.run_path(sys.argv[2]); only=sys.argv[3:]
        for s in g['BUGS']:
            if not only or s['id'] in only: make(s); print("made",s['id'])
    elif sys.argv[1]=="try":
        ids=[a for a in sys.argv[2:] if not a.startswith("--")]; kw=[a for a in sys.argv[2:] if a.startswith("--")]
        ck=None
        for k in kw:
            if k.startswith("--checks="): ck=k.split("=")[1].split(",")
        for i in ids:
            res=tryit(i,ck,"--notest" in kw,"--nodemo" not in kw); print(json.dumps(res,indent=1),flush=True)
        if "--nodemo" not in kw:
            sh("bash /opt/vp/build.sh")
            for i in ids: r=sh("bash %s/seeded/%s/demo.sh"%(V,i),cwd=R); print(i,"demo on clean tree:",r.returncode,r.stdout[-200:] if r.returncode else "")
