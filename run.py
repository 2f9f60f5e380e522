#!/usr/bin/env python3
"""Driver: builds the instrumented library from /repo's current tree, runs symbolic harnesses, replays counterexamples natively."""
import sys, os, re, json, time, hashlib, subprocess, shutil, glob
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('SR_REPO','/repo'); CACHE=os.environ.get('SR_CACHE',os.path.join(V,'_cache'))
sys.path.insert(0,V)
import props
T0=time.time()
LIBS="-rdynamic -lz3 -lgmpxx -lgmp -lboost_log -lboost_log_setup -lboost_system -lboost_serialization -lboost_filesystem -lboost_thread -lboost_regex -lboost_program_options -lboost_chrono -lpthread -ldl".split()+["-Wl,--wrap=__gmpq_set_d,--wrap=__gmpq_cmp,--wrap=__gmpq_equal"]
NLIBS="-lmpc -lmpfr -lgmp -lboost_log -lboost_log_setup -lboost_system -lboost_serialization -lboost_filesystem -lboost_thread -lboost_regex -lboost_program_options -lboost_chrono -lpthread -ldl".split()
INC=["-I",V+"/engine/config","-I",REPO+"/core/include/bertini2","-I",REPO+"/core/include","-I","/usr/include/eigen3","-I",V+"/engine/include","-I",V+"/harness"]
PLUGIN=os.path.join(CACHE,"SymPass.so")
def symflags(opt): return ["-std=c++17",opt,"-g0","-w","-ffp-contract=off","-DMPFR_USE_NO_MACRO","-DEIGEN_DONT_VECTORIZE","-DSR_ENGINE=2"]+INC+["-fpass-plugin="+PLUGIN]
def natflags(opt): return ["-std=c++17",opt,"-g0","-w","-DSR_NATIVE","-DSR_ENGINE=2"]+INC
def log(*a): print("[%6.1fs]"%(time.time()-T0),*a,file=sys.stderr,flush=True)
def sha(*parts):
    h=hashlib.sha256()
    for p in parts: h.update(p if isinstance(p,bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:32]
_fh={}
def fhash(p):
    if p not in _fh:
        try: _fh[p]=hashlib.sha256(open(p,'rb').read()).hexdigest()
        except OSError: _fh[p]='-'
    return _fh[p]
def tracked(p): return p.startswith(REPO) or p.startswith(V)
class BuildError(Exception): pass
def norm(p): return p.replace(REPO+'/','@R/').replace(V+'/','@V/')
def unnorm(p): return p.replace('@R/',REPO+'/').replace('@V/',V+'/')
def compile_obj(src,flags,cc="clang++",extra=""):
    """object cache keyed on flags and on the content of every dependency below /repo and /verif"""
    base=sha(norm(src),[norm(f) for f in flags],cc,extra); d=os.path.join(CACHE,"obj"); os.makedirs(d,exist_ok=True)
    man=os.path.join(d,base+".deps")
    if os.path.exists(man):
        for line in open(man):
            m=json.loads(line)
            if all(fhash(unnorm(f))==h for f,h in m['deps']) and os.path.exists(os.path.join(d,m['obj'])): return os.path.join(d,m['obj'])
    tmp=os.path.join(d,base+".%d.tmp"%os.getpid()); dep=tmp+".d"
    r=subprocess.run([cc]+flags+["-MD","-MF",dep,"-c",src,"-o",tmp],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: raise BuildError("compiling %s\n%s"%(src,r.stdout[-6000:]))
    txt=open(dep).read().replace("\\\n"," "); files=sorted(set(os.path.normpath(f) for f in txt.split(":",1)[1].split() if tracked(os.path.normpath(f))))
    deps=[(norm(f),fhash(f)) for f in files]; obj=base+"_"+sha(json.dumps(deps))+".o"
    os.replace(tmp,os.path.join(d,obj)); os.remove(dep)
    with open(man,"a") as f: f.write(json.dumps({"deps":deps,"obj":obj})+"\n")
    return os.path.join(d,obj)
def build_plugin():
    src=V+"/engine/pass/SymPass.cpp"; stamp=PLUGIN+".sha"; want=fhash(src)
    if os.path.exists(PLUGIN) and os.path.exists(stamp) and open(stamp).read()==want: return
    os.makedirs(CACHE,exist_ok=True)
    cf=[f for f in subprocess.check_output(["llvm-config-18","--cxxflags"],text=True).split() if not f.startswith("-std")]
    r=subprocess.run(["clang++","-fPIC","-shared","-O1","-std=c++17"]+cf+[src,"-o",PLUGIN],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: raise BuildError(r.stdout)
    open(stamp,"w").write(want)
def lib_sources():
    out=[]
    for am in sorted(glob.glob(REPO+"/core/src/*/Makemodule.am")):
        if os.path.basename(os.path.dirname(am)) in ("blackbox","corelibrary","parallel"): continue
        for s in re.findall(r'(src/\S+\.cpp)',open(am).read()):
            p=os.path.join(REPO,"core",s)
            if p not in out and os.path.exists(p): out.append(p)
    return out
HEAVY=("mhom.cpp","system.cpp","user.cpp","total_degree.cpp","straight_line_program.cpp","node.cpp","linear_product.cpp","slice.cpp")
def cost(s):
    b=os.path.basename(s); return -HEAVY.index(b) if b in HEAVY else -100
def build(harness,native=False,real_random=False,subset=None,defs=()):
    hsrc=os.path.join(V,"harness",harness); jobs=[]
    build_plugin()
    fl=(natflags if native else symflags)
    opt="-O0" if not native else "-O0"
    jobs.append((hsrc,fl(opt)+list(defs),"clang++"))
    srcs=sorted(lib_sources(),key=cost,reverse=True)
    if subset is not None: srcs=[s for s in srcs if any(re.search(x,s) for x in subset)]
    for s in srcs:
        if s.endswith("basics/random.cpp") and not real_random: continue
        jobs.append((s,fl(opt),"clang++"))
    if not real_random: jobs.append((V+"/engine/rt/rand_stub.cpp",fl(opt),"clang++"))
    if not native:
        for s in ("core","alg","dbl","mp"): jobs.append((V+"/engine/rt/%s.cpp"%s,["-std=c++17","-O2","-w"],"g++"))
    with ThreadPoolExecutor(max_workers=int(os.environ.get('SR_JOBS','8'))) as ex:
        objs=list(ex.map(lambda j: compile_obj(*j),jobs))
    key=sha(objs); exe=os.path.join(CACHE,"bin",key); os.makedirs(os.path.dirname(exe),exist_ok=True)
    if not os.path.exists(exe):
        r=subprocess.run(["clang++"]+objs+["-o",exe+".tmp%d"%os.getpid()]+(NLIBS if native else LIBS),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode: raise BuildError("linking %s\n%s"%(harness,r.stdout[-6000:]))
        os.replace(exe+".tmp%d"%os.getpid(),exe)
    return exe
def run_sym(exe,spec,tier,logf,seed):
    env=dict(os.environ); env.update({"SR_LOG":logf,"SR_DEADLINE":str(spec.get("budget_"+tier,spec.get("budget",240 if tier=="quick" else 3000))),"SR_PAR":os.environ.get("SR_JOBS","8"),"VERIF_SEED":str(seed),"VERIF_TIER":tier,"SR_ZTMO":str(spec.get("ztmo",4 if tier=="quick" else 20)),"SR_CONFIRM":str(spec.get("confirm",240 if tier=="quick" else 2000)),"SR_PATHLIMIT":str(spec.get("pathlimit",100 if tier=="quick" else 600))})
    tmo=float(env["SR_DEADLINE"])+spec.get("grace",120)
    p=subprocess.Popen([exe],stdout=open(logf+".out","w"),stderr=subprocess.STDOUT,env=env,cwd=os.path.dirname(logf),start_new_session=True)
    try: rc=p.wait(timeout=tmo)
    except subprocess.TimeoutExpired:
        rc=-999
    try: os.killpg(p.pid,9)
    except OSError: pass
    return rc
def replay(exe,cand,path,tol,tmo=150):
    with open(path,"w") as f:
        f.write("# harness=%s label=%s\n# %s\n"%(cand.get('harness'),cand['label'],cand['why'].replace("\n"," ")[:1000]))
        for c in cand['choices']: f.write("c\t%s\t%d\n"%(c[0],c[1]))
        for k,v in cand['vals'].items(): f.write("v\t%s\t%s\t%s\n"%(k,v[0],v[1]))
    env=dict(os.environ); env["SR_REPLAY"]=path; env["SR_TOL"]=str(tol); wd=path+".wd"; os.makedirs(wd,exist_ok=True)
    try:
        r=subprocess.run([exe],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,timeout=tmo,cwd=wd); out=r.stdout.decode('utf8','replace'); rc=r.returncode
    except subprocess.TimeoutExpired: out="TIMEOUT"; rc=-14
    shutil.rmtree(wd,ignore_errors=True)
    lab=cand['label']; ok=False
    if lab=="__crash": ok= rc<0 and rc!=-14 
    elif lab=="__hang": ok= rc==-14
    elif lab=="__exception": ok= "label=__exception" in out
    else: ok= ("REPLAY-FAIL label=%s "%lab) in out
    with open(path,"a") as f: f.write("# native replay exit %s\n"%rc+"".join("# "+l+"\n" for l in out.splitlines()[-12:]))
    return ok,rc,out
def known():
    out=[]; p=os.path.join(V,"known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'finding: property=(\S+) label=(\S+)(?: where=(\S+))? :: (.*)',l)
            if m: out.append({"property":m[1],"label":m[2],"where":dict(kv.split("=") for kv in m[3].split(",")) if m[3] else {},"what":m[4].strip()})
    return out
def matches(k,prop,cand):
    if k['property']!=prop or not re.fullmatch(k['label'],cand['label']): return False
    ch={c[0]:str(c[1]) for c in cand['choices']}
    return all(re.fullmatch(v,ch.get(n,'-')) for n,v in k['where'].items())
def check(prop,tier):
    seed=int(os.environ.get("VERIF_SEED","1") or 1); spec=props.PROPS[prop]; scratch=os.path.join(CACHE,"run_%s_%d"%(prop,os.getpid())); os.makedirs(scratch,exist_ok=True)
    tot={}; viol=[]; knownhits=[]; notes=[]; samples=[]; labels={}; unproved={}; unrep=[]; perh=[]
    kf=known(); err=None
    rp=os.path.join(V,"replays"); os.makedirs(rp,exist_ok=True)
    for old in glob.glob(os.path.join(rp,prop+"-*")):
        try: os.remove(old)
        except OSError: pass
    for hs in spec["harnesses"]:
        if tier=="quick" and hs.get("thorough_only"): continue
        src=hs["src"]; log("building",src)
        defs=["-DSR_PROP_%s"%re.sub(r'\W','_',prop)]+(["-DSR_THOROUGH"] if tier=="thorough" else [])+hs.get("defs",[])
        if not hs.get("prop_def"): defs=defs[1:]
        exe=build(src,real_random=hs.get("real_random",False),subset=hs.get("subset"),defs=defs)
        logf=os.path.join(scratch,src.replace("/","_")+".log"); log("running",src); t1=time.time()
        rc=run_sym(exe,hs,tier,logf,seed); log("done",src,"rc",rc,"%.1fs"%(time.time()-t1))
        st=None; cands=[]; hl={}
        with open(logf,errors='replace') as f:
            for line in f:
                try: j=json.loads(line)
                except Exception: continue
                t=j.get("t")
                if t=="stats": st=j
                elif t=="cand": j['harness']=src; cands.append(j)
                elif t=="path":
                    if j["k"]!=1:
                        for k,v in j["labels"].items(): labels[k]=labels.get(k,0)+v; hl[k]=hl.get(k,0)+v
                        if len(samples)<8 and (len(samples)<3 or j["pc"]>0): samples.append({"harness":src,"choices":j["choices"],"path_conditions":j["pc"],"assertions":list(j["labels"].items())[:12]})
                    for k,v in j["unproved"].items(): unproved[k]=unproved.get(k,0)+v
                elif t in("unsupported","undecided"): notes.append("%s: %s"%(t,j.get("what")))
                elif t=="unproved" and len(notes)<40: notes.append("unproved %s: %s"%(j["label"],j["why"][:300]))
        if st is None: notes.append("harness %s did not finish within its budget"%src); st={}
        perh.append({"harness":src,"wall_s":round(time.time()-t1,1),"paths":st.get("paths",0),"budget_s":hs.get("budget")})
        for k,v in st.items():
            if isinstance(v,(int,float)) and k not in("rootstatus",): tot[k]=max(tot.get(k,0),v) if k=="maxdepth" else tot.get(k,0)+v
        for e in hs.get("expect",[]):
            if not any(re.fullmatch(e,k) for k in hl) and not cands: err="vacuity: no path of %s reached an assertion matching %s"%(src,e)
        # replay
        if cands:
            log("%d candidate counterexamples"%len(cands))
            seen={}; order=[]
            for c in cands:
                kk=(c['label'],json.dumps([x for x in c['choices']]));
                if kk in seen: continue
                seen[kk]=1; order.append(c)
            # known findings first, then spread over labels
            bylab={}
            for c in order: bylab.setdefault((c['label'],any(matches(k,prop,c) for k in kf)),[]).append(c)
            todo=[]
            for r in range(hs.get("replays",8)):
                for l in sorted(bylab,key=lambda x:(x[1],x[0])):
                    if r<len(bylab[l]): todo.append(bylab[l][r])
            nexe=build(src,native=True,real_random=hs.get("real_random",False),subset=hs.get("subset"),defs=defs)
            nv=0; done=set()
            for c in todo[:hs.get("max_replays",60)]:
                km=[k for k in kf if matches(k,prop,c)]
                if km and km[0]['what'] in done: continue
                if nv>=3 and not km: continue
                if time.time()-T0>760: notes.append("replay budget exhausted"); break
                path=os.path.join(rp,"%s-%d.txt"%(prop,len(viol)+len(knownhits)+len(unrep)))
                ok,rc,out=replay(nexe,c,path,hs.get("tol",1e-6))
                if not ok: unrep.append({"label":c['label'],"why":c['why'][:200],"choices":c['choices'],"native_exit":rc}); continue
                if km: knownhits.append(km[0]); done.add(km[0]['what'])
                else: viol.append({"label":c['label'],"choices":c['choices'],"vals":c['vals'],"why":c['why'][:500],"replay":path}); nv+=1
    allk=[k for k in kf if k['property']==prop]
    for k in allk:
        if k in knownhits: print("KNOWN-FINDING: property=%s %s"%(prop,k['what']))
    for v in viol: print("VIOLATION property=%s replay=%s"%(prop,v['replay'])); print("  assertion %s at %s: %s"%(v['label'],json.dumps(v['choices']),v['why'][:300]))
    nasserts=int(tot.get("checks",0)); 
    ev={"property":prop,"tier":tier,"seed":seed,"level":"other","wall_s":round(time.time()-T0,1),"violations":len(viol),
     "coverage":{"explanation":"symbolic execution of the compiled library code (LLVM IR instrumented at pipeline start); every listed assertion was decided over all values of the symbolic inputs on each explored path by exact normalisation plus z3 queries",
       "functions_encoded":spec.get("functions",[]),"bounds":spec.get("bounds",""),"harnesses":perh,
       "paths_completed":tot.get("paths",0),"paths_pruned_by_assumption":tot.get("pruned",0),"forks":tot.get("forks",0),"assertions_evaluated":nasserts,
       "equalities_proved":tot.get("eq_proved",0),"of_which_by_z3":tot.get("eq_z3",0),"relations_proved":tot.get("ineq_proved",0),
       "solver_queries":tot.get("queries",0),"solver_unsat":tot.get("unsat",0),"solver_sat":tot.get("sat",0),"solver_unknown":tot.get("unknown",0),"solver_time_s":round(tot.get("z3_s",0),2),
       "equality_batches_confirmed_unsat_by_z3":tot.get("conf_unsat",0),"equalities_in_confirmed_batches":tot.get("conf_pairs",0),"equality_batches_beyond_z3":tot.get("conf_other",0),
       "undecided_assertions":tot.get("unproved",0),"undecided_by_label":unproved,"measure_zero_equality_branches_skipped":tot.get("skipped_eq",0),"truncated_forks":tot.get("truncated",0),"normalisation_overflows":tot.get("toobig",0),
       "counterexample_candidates":tot.get("cands",0),"candidates_not_reproduced_natively":unrep[:20],"labels_reached":len(labels),"samples":samples,"notes":sorted(set(notes))[:40]},
     "assumptions":props.COMMON_ASSUMPTIONS+spec.get("assumptions",[])}
    os.makedirs(os.path.join(V,"evidence"),exist_ok=True)
    json.dump(ev,open(os.path.join(V,"evidence",prop+".json"),"w"),indent=1)
    shutil.rmtree(scratch,ignore_errors=True)
    print("property=%s tier=%s paths=%d assertions=%d proved=%d undecided=%d queries=%d z3confirmed=%d solver=%.1fs unreproduced=%d wall=%.1fs"%(prop,tier,tot.get("paths",0),nasserts,tot.get("eq_proved",0)+tot.get("ineq_proved",0),tot.get("unproved",0),tot.get("queries",0),tot.get("conf_pairs",0),tot.get("z3_s",0),len(unrep),time.time()-T0))
    for u in unrep[:6]: print("  candidate not reproduced natively:",json.dumps(u)[:600])
    for n in sorted(set(notes))[:8]: print("  note:",n[:300])
    if viol: return 1
    if err: print("ERROR:",err); return 2
    return 0
def main():
    a=sys.argv[1:]
    if a and a[0]=="setup":
        build_plugin()
        jobs=[]
        hs=sorted({h["src"] for p in props.PROPS.values() for h in p["harnesses"] if not h.get("thorough_only")})
        fl=symflags("-O0")
        for s in sorted(lib_sources(),key=cost,reverse=True): jobs.append((s,fl,"clang++"))
        for s in ("core","alg","dbl","mp"): jobs.append((V+"/engine/rt/%s.cpp"%s,["-std=c++17","-O2","-w"],"g++"))
        jobs.append((V+"/engine/rt/rand_stub.cpp",fl,"clang++"))
        for p,sp in props.PROPS.items():
            for h in sp["harnesses"]:
                if h.get("thorough_only"): continue
                jobs.append((os.path.join(V,"harness",h["src"]),fl+(["-DSR_PROP_%s"%re.sub(r'\W','_',p)] if h.get("prop_def") else [])+h.get("defs",[]),"clang++"))
        nf=natflags("-O0")
        for s in sorted(lib_sources(),key=cost,reverse=True): jobs.append((s,nf,"clang++"))
        jobs.append((V+"/engine/rt/rand_stub.cpp",nf,"clang++"))
        def j1(j):
            try: compile_obj(*j); return None
            except BuildError as e: return str(e)
        with ThreadPoolExecutor(max_workers=8) as ex: errs=[e for e in ex.map(j1,jobs) if e]
        for e in errs: print(e[-1500:])
        log("setup done",len(jobs),"objects",len(errs),"errors"); return 1 if errs else 0
    if a and a[0]=="check":
        tier=os.environ.get("VERIF_TIER","quick")
        if "--tier" in a: tier=a[a.index("--tier")+1]
        try: return check(a[1],tier)
        except BuildError as e:
            print("BUILD ERROR",e); return 2
    print(__doc__); return 2
if __name__=="__main__": sys.exit(main())
