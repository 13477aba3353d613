"""M01: click, double click and triple click are recognised exactly."""
BN={"left":0,"middle":1,"right":2,"up":64,"down":65,"none":3}
def enc(p,t,b,x,y,m):
    c=(3 if p!="sgr" and t=="release" else BN[b])+4*m+(32 if t=="motion" else 0)
    if p=="sgr": s=("\x1b[<%d;%d;%d"%(c,x+1,y+1)+("m" if t=="release" else "M")).encode()
    elif p=="urxvt": s=("\x1b[%d;%d;%dM"%(c+32,x+1,y+1)).encode()
    else: s=b"\x1b[M"+bytes([c+32,x+33,y+33])
    return list(s)
def op(r,p,t,b,x,y,dt,mods=.2):
    return {"k":"seq","bytes":enc(p,t,b,x,y,r.randrange(8) if r.random()<mods else 0),"dt":dt}
def dt(r): return r.choice([0,0,1,100,250,250,251,499,500,501,1000,r.randint(0,700),r.choice([5000,3600000])])
def session(r,drag):
    """presses, motions, releases and wheel steps around a few places"""
    n=r.randint(3,40); W=r.choice([3,5,80,220]); x,y=r.randrange(W),r.randrange(W); b="left"; ops=[]
    protos=r.choice([["sgr"],["sgr"],["x10"],["urxvt"],["sgr","x10","urxvt"]])
    def near():
        nonlocal x,y
        k=r.random()
        if k<.55: return
        if k<.9: x=min(220,max(0,x+r.choice([-1,0,0,1]))); y=min(220,max(0,y+r.choice([-1,0,0,1])))
        else: x,y=r.randrange(W),r.randrange(W)
    for _ in range(n):
        k=r.random(); p=r.choice(protos)
        if r.random()<.2: b=r.choice(["left","left","middle","right"])
        if k<(.3 if drag else .65):                     # a click
            near(); ops.append(op(r,p,"press",b,x,y,dt(r)))
            if r.random()<.3:
                near(); ops.append(op(r,p,"motion",b,x,y,0))
            if r.random()<.2: near()
            ops.append(op(r,p,"release",b if r.random()<.9 else r.choice(["left","right"]),x,y,dt(r) if r.random()<.5 else 0))
        elif k<.9:
            t=r.choice(["press","motion","motion","motion","release"] if drag else ["press","release","motion","release"])
            near(); ops.append(op(r,p,t,b if t!="motion" or r.random()<.8 else "none",x,y,dt(r)))
        elif k<.95: ops.append(op(r,p,"scroll",r.choice(["up","down"]),x,y,dt(r)))
        elif k<.97: ops.append({"k":"reset"})
        else: ops.append({"k":"seq","bytes":list(r.choice([b"",b"\x1b",b"garbage",b"\x1b[<0;1M"])),"dt":dt(r)})
    return {"cfg":{"m":"any","log":False},"ops":ops}
def run(c):
    beh=c.explore("Mouse","ClickCfgs",ops="ClickOps",depth=c.pick(3,4),cap=c.pick(6000,60000),label="presses and releases in time")
    c.replay_judge("Mouse","mouse",beh,label="replayed model behaviours")
    c.replay_judge("Mouse","mouse",[session(c.rng,False) for _ in range(c.pick(3000,40000))],label="random clicking")
