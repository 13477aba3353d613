"""Framework: builds the harness from /repo's working tree, drives the real code, runs TLC."""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, time, collections
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("VERIF_REPO","/repo")
SPEC=os.path.join(VERIF,"spec")
JAR="/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV={"PATH":"/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
 "GOTOOLCHAIN":"local","GOPROXY":"off","GOFLAGS":"-mod=mod","GOWORK":"off","GOSUMDB":"off","CGO_ENABLED":"0","LANG":"C.UTF-8"}
class CheckError(Exception): pass
class Stop(Exception):
    """the code under test crashed or hung: the violation is recorded, there is nothing more to judge"""

def tlcerr(o):
    ls=[l for l in o.splitlines() if not l.startswith(('Parsing file','Semantic processing','"{'))]
    return '\n'.join(ls)[:3500]

def load_known():
    """known_findings.txt: lines 'known: property=<id> scenario=<name> <what>' (and 'fixed: ...', which suppress nothing)."""
    out=[]
    p=os.path.join(VERIF,"known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r"known: property=(\S+) scenario=(\S+) (.*)",l.strip())
            if m: out.append(dict(status="known",property=m[1],scenario=m[2],what=m[3]))
    return out

class Ctx:
    def __init__(self,prop,tier=None,seed=None,quiet=False):
        self.prop=prop
        self.tier=tier or os.environ.get("VERIF_TIER","quick")
        self.seed=int(seed if seed is not None else os.environ.get("VERIF_SEED","1"))
        self.rng=random.Random(f"{prop}-{self.seed}")
        self.work=os.path.join(VERIF,"work",prop)
        shutil.rmtree(self.work,ignore_errors=True); os.makedirs(self.work)
        self.t0=time.time(); self.states=0; self.trans=0; self.traces=0; self.steps=0
        self.samples=[]; self.notes=[]; self.viol=[]; self.known_hit=[]; self.parts=[]
        self.actions=collections.Counter()
        self.known=[k for k in load_known() if k["property"]==prop]
        self._n=0; self._bin={}
        self.tags=[] # build tags: with any, the files of /verif/overlay are laid over the repository for the build
    @property
    def thorough(self): return self.tier=="thorough"
    def pick(self,q,t): return t if self.thorough else q
    def log(self,*a): print(f"[{self.prop} {time.time()-self.t0:6.1f}s]",*a,flush=True)

    # ---------------------------------------------------------------- build
    def build(self,pkg="./cmd/drv",overlay=None,moddir=None,race=False):
        key=(pkg,moddir,race)
        if key in self._bin: return self._bin[key]
        out=os.path.join(self.work,"bin%d"%len(self._bin))
        env=dict(os.environ); env.update(GOENV)
        if race: env["CGO_ENABLED"]="1"
        hd=moddir or os.path.join(self.work,"harness")
        if moddir is None and not os.path.exists(hd):
            # copy: go may touch go.mod/go.sum, and REPO may be elsewhere
            shutil.copytree(os.path.join(VERIF,"harness"),hd)
            if REPO!="/repo":
                p=os.path.join(hd,"go.mod"); s=open(p).read().replace("=> /repo/","=> "+REPO+"/").replace("phoenix => /repo\n","phoenix => "+REPO+"\n"); open(p,"w").write(s)
        cmd=["go","build"]+(["-race"] if race else [])
        if self.tags: cmd+=["-tags",",".join(self.tags),"-overlay",self._overlay()]
        elif overlay: cmd+=["-overlay",overlay]
        cmd+=["-o",out,pkg]
        r=subprocess.run(cmd,cwd=hd,env=env,capture_output=True,text=True)
        if r.returncode: raise CheckError("build failed:\n"+r.stdout+r.stderr)
        self.log("built",pkg); self._bin[key]=out
        return out

    def _overlay(self):
        """files of /verif/overlay appear at the same place in the repository, for this build only"""
        root=os.path.join(VERIF,"overlay"); f=os.path.join(self.work,"overlay.json")
        rep={os.path.join(REPO,os.path.relpath(os.path.join(d,n),root)):os.path.join(d,n) for d,_,ns in os.walk(root) for n in ns}
        json.dump({"Replace":rep},open(f,"w")); return f

    # ---------------------------------------------------------------- drive
    def drive(self,comp,cases,binary=None,timeout=300,args=()):
        """cases: list of {"cfg","ops",...}; returns traces {"cfg","ops","obs",...} in order."""
        b=binary or self.build()
        r=self._drv(b,comp,cases,args,timeout)
        if r is None or (r.returncode==2 and re.search(r"^(panic|fatal error): ",r.stderr,re.M)): self._crash(b,comp,cases,args,r,timeout)
        if r.returncode: raise CheckError(f"driver {comp} exit {r.returncode}: {r.stderr[-3000:]}")
        tr=[json.loads(l) for l in r.stdout.splitlines() if l.strip()]
        if len(tr)!=len(cases): raise CheckError(f"driver returned {len(tr)} traces for {len(cases)} cases: {r.stderr[-2000:]}")
        for c,t in zip(cases,tr):
            for k in c:
                if k not in t: t[k]=c[k]
        return tr

    def _drv(self,b,comp,cases,args,timeout):
        self._n+=1
        inp=os.path.join(self.work,f"cases{self._n}.ndjson")
        with open(inp,"w") as f:
            for c in cases: f.write(json.dumps(c)+"\n")
        with open(inp) as fi:
            try: return subprocess.run([b,comp,*args],stdin=fi,capture_output=True,text=True,timeout=timeout,cwd=self.work)
            except subprocess.TimeoutExpired: return None
    def _crash(self,b,comp,cases,args,r,timeout):
        """The process running the real code died of a panic (in a goroutine of the code itself: the driver recovers
        from those in its own) or did not finish.  Narrow down the cases responsible, record the violation and stop."""
        t0=time.time(); part=cases; err=r
        while len(part)>1 and time.time()-t0<90:
            h=part[:len(part)//2]; e=self._drv(b,comp,h,args,30 if err is not None else min(60,timeout))
            if e is None or e.returncode==2: part,err=h,e
            else:
                h=part[len(part)//2:]; e=self._drv(b,comp,h,args,30 if err is not None else min(60,timeout))
                if e is None or e.returncode==2: part,err=h,e
                else: break
        self.violate("driver "+comp,what="the code did not finish" if err is None else "the code panicked: "+err.stderr[:1500],cases=part[:8])
        raise Stop
    # ---------------------------------------------------------------- TLC
    def _tlc(self,root,text,cfg,env=None,workers=8,timeout=600,heap="6g",extra=(),num=None,c2=True):
        if num is None: self._n+=1; num=self._n
        d=os.path.join(self.work,f"tlc{num}"); os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"): shutil.copy(os.path.join(SPEC,f),d)
        open(os.path.join(d,root+".tla"),"w").write(text)
        open(os.path.join(d,root+".cfg"),"w").write(cfg)
        e=dict(os.environ); e.update(env or {})
        cmd=["java","-XX:+UseSerialGC" if workers==1 else "-XX:+UseParallelGC",*([] if c2 else ["-XX:TieredStopAtLevel=1"]),"-Xss64m","-Djava.io.tmpdir="+d,"-Xmx"+heap,"-cp",JAR,"tlc2.TLC","-workers",str(workers),"-deadlock","-noGenerateSpecTE","-metadir",os.path.join(d,"md"),"-config",root+".cfg",*extra,root+".tla"]
        try: r=subprocess.run(cmd,cwd=d,env=e,capture_output=True,text=True,timeout=timeout)
        except subprocess.TimeoutExpired: raise CheckError(f"TLC timeout on {root}")
        open(os.path.join(d,"out.txt"),"w").write(r.stdout+r.stderr)
        m=re.findall(r"(\d+) states generated.*?(\d+) distinct states found",r.stdout.replace(",",""))
        gen,dist=(int(m[-1][0]),int(m[-1][1])) if m else (0,0)
        return r,gen,dist,d
    def judge(self,spec,traces,nondet=False,timeout=600,heap="2g",label=None,consts="",shards=None,per_shard=10000,c2=False):
        """TLC decides each trace; returns list of (index, info) of rejected ones.
        Traces are split over several single-worker TLC processes (faster than one with many workers)."""
        if not traces: return []
        ns=sum(len(t["ops"]) for t in traces)
        if shards is None: shards=max(1,min(8,ns//per_shard+1,len(traces)))
        root=spec+"_Trace"
        text=open(os.path.join(SPEC,"SetTraceCheck.tmpl" if nondet else "TraceCheck.tmpl")).read().replace("@ROOT@",root).replace("@SPEC@",spec)
        jobs=[]
        for k in range(shards):
            self._n+=1
            idx=list(range(k,len(traces),shards))
            f=os.path.join(self.work,f"traces{self._n}.ndjson")
            with open(f,"w") as o:
                for i in idx: o.write(json.dumps({x:traces[i][x] for x in ("cfg","ops","obs") if x in traces[i]})+"\n")
            self._n+=1
            jobs.append((idx,f,self._n))
        def one(j):
            idx,f,n=j
            r,gen,dist,d=self._tlc(root,text,"INIT TInit\nNEXT TNext\nVIEW TView\n"+consts,{"TRACES":f},workers=1,timeout=timeout,heap=heap,num=n,c2=c2)
            if "Model checking completed. No error has been found" not in r.stdout:
                raise CheckError(f"TLC trace check of {spec} failed (see {d}/out.txt):\n"+tlcerr(r.stdout+r.stderr))
            bad=[]
            for l in r.stdout.splitlines():
                if l.startswith('"{') and '\\"bad\\"' in l:
                    x=json.loads(json.loads(l)); bad.append((idx[x["bad"]-1],x))
            return bad,gen,dist
        with concurrent.futures.ThreadPoolExecutor(8) as ex: res=list(ex.map(one,jobs))
        bad=sorted((b for r in res for b in r[0]),key=lambda x:x[0])
        dist=sum(r[2] for r in res); gen=sum(r[1] for r in res)
        self.traces+=len(traces)-len(bad); self.states+=dist; self.trans+=gen
        self.steps+=ns
        for t in traces:
            for o in t["ops"]:
                if isinstance(o,dict) and "k" in o: self.actions[o["k"]]+=1
        self.parts.append(dict(part=label or spec,kind="trace validation",traces=len(traces),steps=ns,rejected=len(bad),states=dist))
        self.log(f"judged {label or spec}: {len(traces)} traces, {ns} steps, {len(bad)} rejected")
        if len(self.samples)<4:
            t=traces[self.rng.randrange(len(traces))]
            self.samples.append({"part":label or spec,"cfg":t["cfg"],"ops":t["ops"][:12],"last_obs":(t.get("obs") or [None])[-1]})
        return bad
    def explore(self,spec,cfgs,ops="Ops",depth=6,emit=True,timeout=600,cap=None,label=None,extra_consts="",heap="6g"):
        """Exhaustive TLC run of spec with Cfgs <- cfgs; returns the generated behaviours (cases)."""
        root=spec+"_Explore"
        text=open(os.path.join(SPEC,"Explore.tmpl")).read().replace("@ROOT@",root).replace("@SPEC@",spec)
        text=text.replace("Ops(st)",ops+"(st)").replace("c \\in Cfgs","c \\in "+cfgs)
        cfg=f"INIT MInit\nNEXT MNext\nVIEW MView\nINVARIANT MInv\nCONSTANTS MaxDepth = {depth}\nEmit = {'TRUE' if emit else 'FALSE'}\n{extra_consts}"
        r,gen,dist,d=self._tlc(root,text,cfg,timeout=timeout,heap=heap)
        if "Model checking completed. No error has been found" not in r.stdout:
            raise CheckError(f"TLC exploration of {spec} failed (see {d}/out.txt):\n"+tlcerr(r.stdout))
        self.states+=dist; self.trans+=gen
        beh=[]
        for l in r.stdout.splitlines():
            if l.startswith('"{'): beh.append(json.loads(json.loads(l)))
        # keep maximal behaviours only: a behaviour that is a prefix of another is replayed with it
        keys=set()
        for b in beh:
            k=json.dumps(b["cfg"],sort_keys=True)
            ops_=[json.dumps(o,sort_keys=True) for o in b["ops"]]
            b["_k"]=(k,tuple(ops_)); keys.add((k,tuple(ops_[:-1])))
        tot=len(beh)
        beh=[b for b in beh if b["_k"] not in keys]
        leaves=len(beh)
        if cap and len(beh)>cap: beh=self.rng.sample(beh,cap)
        for b in beh: b.pop("_k")
        self.parts.append(dict(part=label or f"{spec}/{cfgs}",kind="exhaustive exploration",states=dist,transitions=gen,behaviours=leaves,replayed=len(beh)))
        self.log(f"explored {label or spec+'/'+cfgs}: {dist} states, {gen} transitions, {leaves} behaviours, replaying {len(beh)}")
        return beh
    # ---------------------------------------------------------------- verdicts
    def verdict(self,bad,traces,label):
        """turn rejected traces into violations (or known findings by scenario name)."""
        for idx,info in bad:
            t=traces[idx]
            sc=t.get("scenario")
            k=[x for x in self.known if x.get("status")=="known" and sc and x.get("scenario")==sc]
            if k:
                self.known_hit.append(k[0]); continue
            st=max(info["step"],0)
            n=len(t["ops"])
            got=(t.get("obs") or [])
            self.viol.append(dict(label=label,spec_verdict=info["verdict"],scenario=sc,cfg=t["cfg"],ops=t["ops"][:st],
                step=st,expected=info.get("exp"),script=t.get("script"),got=got[st] if st<len(got) else None))
    def replay_judge(self,spec,comp,cases,label=None,nondet=False,**kw):
        if not cases: return []
        tr=self.drive(comp,cases,**{k:kw.pop(k) for k in ("binary","args") if k in kw})
        bad=self.judge(spec,tr,nondet=nondet,label=label,**kw)
        self.verdict(bad,tr,label or spec)
        return tr
    def violate(self,label,**d):
        sc=d.get("scenario")
        k=[x for x in self.known if x.get("status")=="known" and sc and x.get("scenario")==sc]
        if k: self.known_hit.append(k[0]); return
        d["label"]=label; self.viol.append(d)
    def finish(self,level="model_checking",assumptions=(),extra=None):
        for k in {json.dumps(x,sort_keys=True) for x in self.known_hit}:
            k=json.loads(k); print(f"KNOWN-FINDING: property={self.prop} {k['scenario']}: {k['what']}")
        cov=dict(states=self.states,transitions=self.trans,traces_validated_against_impl=self.traces,
                 steps_compared=self.steps,parts=self.parts,actions_exercised=dict(self.actions.most_common(60)),
                 samples=self.samples or [{"note":"none"}])
        if extra: cov.update(extra)
        ev=dict(property=self.prop,tier=self.tier if self.tier in("quick","thorough") else "quick",seed=self.seed,level=level,coverage=cov,
                assumptions=list(assumptions)+self.notes,wall_s=round(time.time()-self.t0,2),violations=len(self.viol))
        os.makedirs(os.path.join(VERIF,"evidence"),exist_ok=True)
        json.dump(ev,open(os.path.join(VERIF,"evidence",self.prop+".json"),"w"),indent=1,ensure_ascii=False)
        if self.viol:
            rp=os.path.join(VERIF,"work",f"replay-{self.prop}.json")
            json.dump(self.viol[:20],open(rp,"w"),indent=1,ensure_ascii=False)
            for v in self.viol[:3]:
                t=json.dumps(v,ensure_ascii=False)
                print("  rejected:",t if len(t)<4000 else t[:1200]+" ... "+t[-2600:])
            print(f"VIOLATION property={self.prop} replay={rp}"); return 1
        self.log(f"held: states={self.states} traces={self.traces} steps={self.steps}")
        return 0
