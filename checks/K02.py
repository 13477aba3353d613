"""K02: clipboard history is bounded, newest first, and expires."""
from checks.K01 import NOENV,text
def hist(r,N=None):
    big=r.random()<.05
    ops=[{"k":"enable","max":r.choice([-5,0,1,2,3,5,10] if not N else [0,0,50,100,101,257]),"age":r.choice([-1,0,1,2,3]),"huge":r.random()<.03}] if r.random()<.9 else []
    n=0
    for _ in range(N or r.randint(3,120 if big else 30)):
        x=r.random()
        if x<.45: ops.append({"k":"write","c":text(r,.03),"m":r.choice(["plain","html","rtf"])}); n+=1
        elif x<.58: ops.append({"k":"tick","n":r.choice([1,1,2,5])})
        elif x<.68: ops.append({"k":"expire"})
        elif x<.72: ops.append({"k":"enable","max":r.choice([-5,0,1,2,3,5] if not N else [0,100,40]),"age":r.choice([-1,0,1,2,3]),"huge":r.random()<.05})
        elif x<.73: ops.append({"k":"disable"})
        elif x<.75: ops.append({"k":"clear"})
        elif x<.83: ops.append({"k":"restore","i":r.randint(max(0,n-4),n+1)}); n+=1
        elif x<.89: ops.append({"k":"recent","n":r.choice([-1,0,1,2,3,5,100,101])})
        elif x<.95: ops.append({"k":"entry","i":r.randint(max(0,n-6),n+1)})
        elif x<.97: ops.append({"k":"fail","i":1,"r":False,"w":r.random()<.5})
        else: ops.append({"k":"scribble"})
    return {"cfg":{"how":"fakes","provs":[{"t":"fake","name":"A","mime":"text/plain","avail":True,"c":[]}],"tools":[],"tty":False,"env":NOENV,"osc52":False,"native":False,"coarse":r.random()<.5},"ops":ops}
def par(r):
    ops=[]
    for _ in range(r.randint(1,3)): ops+=[{"k":"enable","max":r.choice([0,0,1,7,50]),"age":r.choice([0,2]),"huge":False},{"k":"par","g":r.randint(2,6),"n":r.choice([3,30,60])}]
    return {"cfg":{"how":"fakes","provs":[{"t":"fake","name":"A","mime":"text/plain","avail":True,"c":[]}],"tools":[],"tty":False,"env":NOENV,"osc52":False,"native":False,"coarse":False},"ops":ops}
def run(c):
    c.tags=["vclip"]
    beh=c.explore("Clip","HistCfgs",ops="HistOps",depth=c.pick(4,5),cap=c.pick(6000,40000),label="histories")
    c.replay_judge("Clip","clip",beh,label="replayed model behaviours")
    c.replay_judge("Clip","clip",[hist(c.rng) for _ in range(c.pick(2000,20000))],label="random histories")
    c.replay_judge("Clip","clip",[par(c.rng) for _ in range(c.pick(150,1500))],label="concurrent copies")
    c.replay_judge("Clip","clip",[hist(c.rng,c.rng.choice([200,600])) for _ in range(c.pick(12,100))],label="long histories",per_shard=2)
