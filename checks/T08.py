"""T08: external programs on a real terminal."""
ASSUMPTIONS=["external programs are POSIX shell scripts; the terminal is a Linux pseudo terminal",
 "an external program that is neither given the terminal nor in its owner's group does not read from it"]
def txt(r): return [r.choice([97,98,99,120,121,122,48,57,46,47]) for _ in range(r.randint(1,6))]
def follow(st,o,phase):
    """how many keys Update must have had after an operation: so many the driver waits for"""
    k=o["k"]
    if k=="type": st["n"]+=len(o["t"])
    elif k=="ahead": st["p"].append(len(o["t"]))
    elif k=="read": st["p"]=(st["p"]+[len(o["t"])])[1:]
    elif k=="exec" and o["kind"] not in("nil","nostart"):
        m={"read":1,"stop":1,"read2":2}.get(o["kind"],0)
        st["p"]=(([] if o["kind"] in("intr","stop") else st["p"])+[len(o["t"])]*m)[m:]
    if phase=="run" and k in("resume","exec"): st["n"]+=sum(x+1 for x in st["p"]); st["p"]=[]
    if k in("resume","exec"): o["nk"]=st["n"]
def ex(r,phase,waiting):
    x=r.random()
    how,tf,cpg=("plain",False,False) if x<.35 else ("tty",True,True) if x<.8 else ("tty",False,False) if x<.88 else ("tty",False,True) if x<.95 else ("tty",True,False)
    kinds=["exit","kill","nostart","nil"] if how=="tty" and not tf and cpg else ["read"]*5+["read2","read2","exit","exit","kill","nostart","nil"]+(["intr"]+([] if waiting else ["stop"]) if tf and cpg else [])
    k=r.choice(kinds)
    return {"k":"exec","how":how,"tf":tf,"cpg":cpg,"kind":k,"code":r.choice([0,0,1,2,77,255]) if k in("read","read2","exit","stop") else 0,
        "t":txt(r) if k in("read","read2","stop") else [],"cmd":r.random()<.6,"busy":r.random()<.35,"redraw":phase=="run" and k!="nil"}
def case(r):
    alt=r.random()<.5; phase="run"; ops=[{"k":"start","alt":alt,"bg":r.random()<.3,"dev":r.random()<.35,"redraw":True}]; st={"n":0,"p":[]}
    for _ in range(r.randint(2,9)):
        x=r.random()
        if phase=="run":
            if x<.35: o={"k":"type","t":txt(r)}
            elif x<.8: o=ex(r,phase,st["p"])
            elif x<.97: o={"k":"suspend"}; phase="susp"
            else: o={"k":"stop"}; phase="done"
        elif phase=="susp":
            if x<.25: o={"k":"read","t":txt(r)}
            elif x<.35: o={"k":"ahead","t":txt(r)}
            elif x<.55: o=ex(r,phase,st["p"])
            elif x<.62: o={"k":"suspend"}
            elif x<.92: o={"k":"resume","redraw":True}; phase="run"
            else: o={"k":"stop"}; phase="done"
        else: o={"k":"read","t":txt(r)}
        follow(st,o,phase); ops.append(o)
    return {"cfg":{"alt":alt},"ops":ops}
def judge(c,cases,label):
    """nothing here depends on the time, but a starved machine may exceed the driver's patience: repeat what failed"""
    tr=c.drive("ttyprog",cases)
    for k in range(3):
        bad=c.judge("Tty",tr,label=label)
        if not bad or k==2: break
        idx=[i for i,_ in bad]
        if len(idx)>40: break
        for i in idx: tr[i]=c.drive("ttyprog",[cases[i]])[0]
    c.verdict(bad,tr,label)
def run(c):
    beh=c.explore("Tty","Cfgs",depth=c.pick(3,4),cap=c.pick(400,2500))
    judge(c,beh,"replayed model behaviours")
    judge(c,[case(c.rng) for _ in range(c.pick(300,2500))],"random histories on a terminal")
