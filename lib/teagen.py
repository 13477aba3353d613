"""Scripts for the tea program driver (harness/cmd/drv/teaprog.go): random ones, and the behaviours of spec/TeaScript.tla."""
import copy
KINDS=["p","key","skey","mouse","size","string","println","tick","ptr"]
LKINDS=["p","key","mouse","string","println","tick","nil","p","p","ptr"]
class Gen:
    def __init__(g,r):
        g.r=r; g.nl=0; g.slow=False; g.leaves=[]; g.beh={}; g.gates=[]
    def gate(g):
        n="g%d"%len(g.gates); g.gates.append(n); return n
    def tree(g,root,size,depth,pre=(),gated=0.0,quit=0.0,do=None):
        """returns (tree, leaf ids)"""
        r=g.r
        if depth==0 or size<=1:
            if r.random()<.05: return None,[]
            g.nl+=1; l="c%d"%g.nl
            k="quit" if r.random()<quit else r.choice(LKINDS)
            t={"leaf":l,"kind":k}
            if r.random()<gated: t["gate"]=g.gate()
            if do and r.random()<.5: t["do"]=[do()]
            if g.slow and r.random()<.6: t["slow"]=r.choice([1,20,150,1100,2500,7000])
            g.leaves.append({"l":g.nl,"root":root,"kind":k,"pre":sorted(pre)})
            return t,[g.nl]
        n=r.randint(0,min(4,size)) if size<20 else r.randint(2,max(3,min(40,size//2)))
        kids=[]; ids=[]; seq=r.random()<.5; pre=set(pre)
        for _ in range(n):
            t,i=g.tree(root,max(1,size//max(n,1)),depth-1,pre|(set(ids) if seq else set()),gated,quit,do)
            kids.append(t); ids+=i
        return {"seq" if seq else "batch":kids},ids
    def cmd(g,root,size=6,depth=3,**kw):
        t,ids=g.tree(root,size,depth,**kw)
        b=g.beh.setdefault(root,{})
        if t is not None: b["cmd"]=t
        return ids
    def reuse(g,root,of):
        """root's Update returns the very command of's Update returned"""
        b=g.beh.get(of,{})
        if "cmd" not in b: return
        off=g.nl; mine=[x for x in g.leaves if x["root"]==of]
        def clone(t):
            if t is None: return None
            if "leaf" in t: t["off"]=off; return {"leaf":"c%d"%(int(t["leaf"][1:])+off),"kind":t["kind"]}
            k="batch" if "batch" in t else "seq"; return {k:[clone(x) for x in t[k]]}
        g.beh.setdefault(root,{}).update(cmd=clone(b["cmd"]),reuse=of)
        ids={x["l"] for x in mine}; lo=g.nl
        for n in range(1,lo+1):     # leaves are numbered without gaps
            x=next((x for x in mine if x["l"]==n),None)
            g.leaves.append({"l":n+off,"root":root if x else "none","kind":x["kind"] if x else "nil","pre":[p+off for p in x["pre"]] if x else []})
        g.nl+=off
    def case(g,prop,threads,**cfg):
        c={"prop":prop,"alt":g.r.random()<.5,"motion":False,"jitter":g.r.choice([0,0,2,10,40]),"seed":g.r.randrange(1<<30),"fail":[],
           "gates":g.gates,"beh":g.beh,"leaves":g.leaves,"threads":threads,"tail":0}
        c.update(cfg)
        return {"cfg":c,"ops":[]}
def send(n,kind="p"): return {"do":"send","n":n,"kind":kind}
def D(op,**k): return dict(do=op,**k)
TTY=lambda r: r.choice([D("suspend"),D("resume"),D("suspend"),D("resume"),D("exec",code=r.choice([0,0,1,7]),us=r.choice([0,300])),D("exec",code=0,missing=True)])

def messages(r,prop):
    """many senders, keys, commands, gates"""
    g=Gen(r); ths=[]
    nth=r.randint(1,5); per=r.choice([1,3,10,30])
    for t in range(nth+1):
        st=[]; n=0
        for _ in range(r.randint(0,per)):
            k=r.choice(KINDS+["seqmsg"])
            st.append(send(n,k)); 
            if r.random()<.15: g.cmd("m%d.%d"%(t,n),r.choice([1,2,6]),2,gated=.1)
            elif r.random()<.03: g.beh.setdefault("m%d.%d"%(t,n),{})["gate"]=g.gate()
            n+=3 if k=="seqmsg" else 1
            if r.random()<.1: st.append(D("sleep",us=r.randint(0,800)))
        ths.append(st)
    keys=[D("key",n=i) for i in range(r.choice([0,0,3,20]))]
    if r.random()<.3: g.cmd("init",r.choice([1,4,10]),3)
    opens=[D("open",g=x) for x in g.gates]; r.shuffle(opens)
    nq=[D("quiet")] if r.random()<.3 else []
    main=[D(r.choice(["start","start","run"])),D("go")]+mixl(r,ths[0],keys)+[D("sleep",us=500)]*r.randint(0,1)
    if g.gates:
        k=r.randint(0,len(opens)); main+=opens[:k]
        main+=nq+opens[k:]+[D("join"),D("quiet")]
    else: main+=[D("join"),D("quiet")]
    if r.random()<.5: main+=[send(900),D("quiet")]
    return g.case(prop,[main+[D("stop"),D("ended"),send(990)]]+ths[1:],tail=r.choice([0,5]))
def mixl(r,a,b):
    out=[];a=list(a);b=list(b)
    while a or b:
        if a and (not b or r.random()<len(a)/(len(a)+len(b))): out.append(a.pop(0))
        else: out.append(b.pop(0))
    return out
def flood(r,prop):
    """more messages than any queue holds while the loop is blocked"""
    g=Gen(r); gt=g.gate(); g.beh["m0.0"]={"gate":gt}
    n=r.choice([99,100,101,103])
    if r.random()<.5: g.cmd("init",r.choice([120,250]),2)
    main=[D("start"),send(0),D("atgate",g=gt)]+[send(i) for i in range(1,n+2)]+[D("open",g=gt),D("quiet"),send(500),D("quiet"),D("stop"),D("ended")]
    return g.case(prop,[main],jitter=0)
def again(r,prop):
    """the same command returned by several Updates"""
    g=Gen(r); main=[D(r.choice(["start","run"]))]
    g.cmd("m0.0",r.choice([2,4,8]),r.randint(1,3)); main+=[send(0),D("quiet")]
    if r.random()<.5: g.cmd("m0.1",3,2); main+=[send(1),D("quiet")]
    g.reuse("m0.2","m0.0"); main+=[send(2),D("quiet"),send(50),D("quiet"),D("stop"),D("ended")]
    return g.case(prop,[main],jitter=r.choice([0,2]))
def slow(r,prop):
    """a clock of its own: Updates, Views and commands which take long, and whatever waits for them"""
    g=Gen(r); g.slow=True; ths=[]; cfg={}
    S=lambda: r.choice([5,90,110,300,950,1050,2500,12000])
    if r.random()<.2: cfg["vslow"]=r.choice([1,30,300])
    if r.random()<.4: g.cmd("init",r.choice([1,3,8]),3)
    many=r.random()<.3; nth=0 if many else r.randint(0,3); main=[D(r.choice(["start","run"]))]
    if many:    # more results at once than any queue holds
        n=r.choice([60,101,130]); d=r.choice([200,1500])
        for k in range(n): g.nl+=1; g.leaves.append({"l":g.nl,"root":"m0.%d"%k,"kind":"p","pre":[]}); g.beh["m0.%d"%k]={"cmd":{"leaf":"c%d"%g.nl,"kind":"p","slow":d}}
        cfg["vslow"]=0; g.beh["m0.%d"%n]={"slow":d+S()}
        main+=[send(k) for k in range(n+1)]+[D("sleep",us=r.choice([0,d*500,d*1200]))]
        main+=[send(n+1+k) for k in range(r.choice([0,3]))]
    for t in range(nth+1):
        if t==0 and many: continue
        st=[]; n=0
        for _ in range(r.randint(1,r.choice([2,8]))):
            k="m%d.%d"%(t,n); st.append(send(n,r.choice(KINDS))); n+=1
            if r.random()<.35: g.beh.setdefault(k,{})["slow"]=S()
            if r.random()<.35: g.cmd(k,r.choice([1,3,6]),3)
            if r.random()<.4: st.append(D("sleep",us=1000*S()))
        if t==0: main+=[D("go")]+st
        else: ths.append(st)
    if r.random()<.25: main+=[D("suspend"),D("sleep",us=1000*S()),D("resume")]
    how=r.random()
    if how<.45: main+=[D("join"),D("quiet"),send(800),D("quiet")]
    elif how<.6:
        g.beh["m0.700"]={"slow":S()}; g.nl+=1; g.leaves.append({"l":g.nl,"root":"m0.700","kind":"quit","pre":[]}); g.beh["m0.700"]["cmd"]={"leaf":"c%d"%g.nl,"kind":"quit","slow":S()}
        main+=[send(700),D("join"),D("quiet"),D("ended")]
    elif how<.7: main+=[D("sendquit"),D("join"),D("quiet")]
    main+=[D("stop"),D("ended"),send(990)]
    if r.random()<.5: main+=[D("sleep",us=20000000)]
    return g.case(prop,[main]+ths,virt=True,**dict(cfg,jitter=0))
def commands(r,prop):
    g=Gen(r); big=r.random()
    size=r.choice([3,6,12]) if big<.8 else r.choice([60,150,300])
    gated=r.choice([0,.2,.5]) if size<=12 else 0
    main=[D(r.choice(["start","run"]))]
    if r.random()<.4: g.cmd("init",size,r.randint(1,4),gated=gated)
    for n in range(r.randint(1,3)):
        ids=g.cmd("m0.%d"%n,size,r.randint(1,5),gated=gated)
        main.append(send(n))
        for l in ids:
            if r.random()<.08: g.cmd("c%d"%l,4,2,gated=gated/2)
    opens=[D("open",g=x) for x in g.gates]; r.shuffle(opens)
    for o in opens:
        if r.random()<.15: main.append(D("quiet"))
        main.append(o)
        if r.random()<.2: main.append(D("sleep",us=200))
    main+=[D("quiet"),send(50),D("quiet")]
    if r.random()<.7: main+=[D("stop"),D("ended")]
    return g.case(prop,[main],jitter=r.choice([0,2,20]) if size<60 else 0)
def ending(r,prop):
    """a quit of some kind at some instant"""
    g=Gen(r); runmode=r.random()<.5; how=r.choice(["stop","stop","quitcmd","quitcmd","sendquit","panic","vpanic","initpanic","quitinit","seqquit","gone"])
    if how in("panic","vpanic","initpanic"): runmode=True
    busy=r.choice(["idle","gated","gated","initgate","many","cmds","suspended","keys"])
    cfg={}
    main=[]; other=[[],[]]
    if busy=="initgate": gt=g.gate(); g.beh.setdefault("init",{})["gate"]=gt
    if how!="quitinit" and r.random()<.3: g.cmd("init",3,2,gated=.2)
    if how=="initpanic": g.beh.setdefault("init",{})["panic"]=True
    if how=="quitinit": g.cmd("init",r.choice([1,3]),2,quit=.7)
    if how=="vpanic": cfg["vpanic"]=r.randint(0,3)
    main.append(D("run" if runmode else "start"))
    n=0
    if busy=="initgate": main.append(D("atgate",g=gt))
    if busy=="gated":
        gt=g.gate(); g.beh["m0.%d"%n]={"gate":gt}
        if r.random()<.4: g.cmd("m0.%d"%n,4,2,gated=.2,quit=.2)
        main+=[send(n),D("atgate",g=gt)]; n+=1
    if busy=="cmds":
        g.cmd("m0.%d"%n,8,3,gated=.3); main.append(send(n)); n+=1
    if busy=="suspended": main+=[D("suspend")]
    if busy=="keys": main+=[D("key",n=i) for i in range(5)]
    if busy=="many": other[0]=[send(i,r.choice(KINDS)) for i in range(r.choice([5,40]))]; main.append(D("go"))
    for _ in range(r.randint(0,2)): main.append(send(n)); n+=1
    if how=="stop":
        x=r.random()
        if busy in("gated","initgate"): other[1]=[D("stop")]; main+=[D("go"),D("sleep",us=r.choice([0,300,3000]))]
        else: main.append(D("stop"))
        if x<.3: main.append(D("stop"))
    elif how=="quitcmd":
        b=g.beh.setdefault("m0.%d"%n,{})
        if r.random()<.5: g.nl+=1; l="c%d"%g.nl; b["cmd"]={"leaf":l,"kind":"quit"}; g.leaves.append({"l":g.nl,"root":"m0.%d"%n,"kind":"quit","pre":[]})
        else: g.cmd("m0.%d"%n,r.choice([4,10]),3,quit=.5)
        main.append(send(n)); n+=1
    elif how=="seqquit":
        g.cmd("m0.%d"%n,5,2,quit=.4,gated=.3); main.append(send(n)); n+=1
    elif how=="sendquit": main.append(D("sendquit"))
    elif how=="panic": g.beh.setdefault("m0.%d"%n,{})["panic"]=True; main.append(send(n)); n+=1
    for _ in range(r.randint(0,2)): main.append(send(n)); n+=1
    opens=[D("open",g=x) for x in g.gates]; r.shuffle(opens)
    main+=opens
    if busy=="suspended" and r.random()<.5: main.append(D("resume"))
    main+=[D("join"),D("quiet")]
    if r.random()<.7: main+=[D("stop"),D("ended"),send(600),D("stop")]
    if how not in("vpanic","initpanic") and "stop" in [m["do"] for m in main[-3:]] and r.random()<.4:
        main+=[D(r.choice(["start","run"])),send(700),D("quiet"),D("stop"),D("ended"),send(701)]
    if r.random()<.2: cfg["fail"]=fails(r)
    return g.case(prop,[main]+other,tail=r.choice([0,10,20]),**cfg)
def fails(r):
    ops=["enterraw","exitraw","enteralt","exitalt","show","hide"]
    return [{"op":r.choice(ops),"at":r.choice([0,1,1,2,2,3])} for _ in range(r.choice([1,1,1,2]))]
def lifecycle(r,prop,faults):
    """suspend, resume, exec, runs, quits, with failing terminal operations"""
    g=Gen(r); main=[]; other=[]; n=0
    runmode=r.random()<.5
    def steps(k):
        nonlocal n
        out=[]
        for _ in range(k):
            x=r.random()
            if x<.55: out.append(TTY(r))
            elif x<.75: out.append(send(n,r.choice(KINDS))); n+=1
            elif x<.85: out.append(D("quiet"))
            elif x<.9: out.append(D("sleep",us=r.choice([100,2000])))
            elif x<.95: out.append(D("key",n=min(n,25))) if not any(o.get("do")=="key" for o in main+out) else None
            elif runmode is False: out.append(D("start",again=True))
            else: out.append(D("run",again=True))
        return [o for o in out if o]
    if r.random()<.15: main+=[TTY(r) for _ in range(r.randint(1,3))]
    main.append(D("run" if runmode else "start"))
    if r.random()<.6: main.append(D("inited"))
    if r.random()<.25:
        other.append([TTY(r) for _ in range(r.randint(1,4))]); main.append(D("go"))
    if r.random()<.3:
        root="m0.%d"%n; g.cmd(root,r.choice([1,3]),2,do=lambda:TTY(r)); main.append(send(n)); n+=1
    main+=steps(r.randint(1,7))
    # 'again' starts are only meaningful while the program surely runs
    if r.random()<.3 and not faults:
        gt=g.gate(); main+=[D("exec",code=0,us=0)]
    main+=[D("join"),D("quiet")]
    how=r.random()
    if how<.5: main+=[D("stop"),D("ended")]
    elif how<.65: main+=[D("sendquit"),D("quiet")]
    elif how<.8 and runmode:
        g.beh["m0.%d"%n]={"panic":True}; main+=[send(n),D("quiet")]; n+=1
    if how<.5:
        main+=[TTY(r) for _ in range(r.randint(0,2))]
        if r.random()<.4: main+=[D(r.choice(["start","run"])),D("inited")]+[TTY(r) for _ in range(r.randint(0,3))]+[D("quiet"),D("stop"),D("ended")]
    cfg={}
    if faults: cfg["fail"]=fails(r)
    if cfg.get("fail"):
        # after a failed start 'again' would be a real start
        main=[m for m in main if not m.get("again")]
    return g.case(prop,[main]+other,**cfg)
def concurrent_tty(r,prop):
    """suspend/resume/exec against messages, redraws and the end"""
    g=Gen(r); ths=[]
    for t in range(r.randint(1,2)): ths.append([send(i) for i in range(r.choice([5,30]))])
    k=r.random()
    if k<.5: ths.append([TTY(r) for _ in range(r.randint(1,4))])
    main=[D(r.choice(["start","run"])),D("go")]
    for _ in range(r.randint(1,3)):
        main+=[D("suspend"),D("sleep",us=r.choice([0,500,2000])),D("resume")] if r.random()<.6 else [D("exec",code=r.choice([0,5]),us=r.choice([0,1500]))]
        if r.random()<.5: main.append(D("sleep",us=r.choice([0,500])))
    if r.random()<.3: main+=[D("suspend")]
    if r.random()<.3: ths.append([D("sleep",us=r.choice([500,2000,5000,12000])),D("stop")])
    main+=[D("join"),D("quiet"),D("stop"),D("ended"),D("quiet")]
    return g.case(prop,[main]+ths)
def from_model(r,prop,beh):
    """a behaviour of TeaScript.tla as a script"""
    g=Gen(r); main=[]; n=0
    for o in beh["ops"]:
        k=o["k"]
        if k=="plain": main.append(send(n)); n+=1
        elif k=="gated":
            gt=g.gate(); g.beh["m0.%d"%n]={"gate":gt}; main+=[send(n),D("atgate",g=gt)]; n+=1
        elif k=="open": main.append(D("open",g=g.gates[-1]))
        elif k=="cmd": g.cmd("m0.%d"%n,3,2); main.append(send(n)); n+=1
        elif k=="quitcmd":
            g.nl+=1; l="c%d"%g.nl; g.beh["m0.%d"%n]={"cmd":{"leaf":l,"kind":"quit"}}; g.leaves.append({"l":g.nl,"root":"m0.%d"%n,"kind":"quit","pre":[]})
            main.append(send(n)); n+=1
        elif k=="panic": g.beh["m0.%d"%n]={"panic":True}; main.append(send(n)); n+=1
        elif k=="ended": main+=[D("quiet"),D("ended"),send(700+n)]; n+=1
        elif k=="exec": main.append(D("exec",code=o["code"],us=0))
        elif k=="quiet": main.append(D("quiet"))
        else: main.append(D(k))
    main+=[D("quiet")]
    return g.case(prop,[main],alt=beh["cfg"]["alt"],fail=beh["cfg"]["fail"],jitter=0)
