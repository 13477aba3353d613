"""M03: mouse protocol decoding recovers the event that was encoded, and malformed reports are rejected."""
from checks.M01 import enc
TYPES=[("press","left"),("press","middle"),("press","right"),("release","left"),("release","middle"),("release","right"),
       ("motion","left"),("motion","middle"),("motion","right"),("motion","none"),("scroll","up"),("scroll","down")]
def good(r,p):
    t,b=r.choice(TYPES); big=222 if p=="x10" else r.choice([10,222,300,9999,999998])
    return enc(p,t,b,r.randint(0,big),r.randint(0,big),r.randrange(8))
def number(r):
    k=r.random()
    if k<.5: return str(r.choice([0,1,2,3,32,35,64,65,66,67,96,128,129,131,160,192,255,256,4096,r.randrange(512)]))
    if k<.7: return r.choice(["","0","00","007","-1","+1","+5"," 1","1 ","1.5","0x10","1_0","a","９","-0","1e3","99999999999999999999999","000000000000000000000012"])
    return str(r.randint(0,300))
def rare(r):
    """any code, odd numbers, mutated reports, noise"""
    k=r.random()
    if k<.4:
        n=[number(r) for _ in range(r.choice([3,3,3,3,3,2,4,1]))]
        return list((r.choice(["\x1b[<","\x1b[<","<","[<","\x1b<","\x1b[","\x1b[","[","","\x1b[<<","\x1b\x1b[<"])+";".join(n)+r.choice(["M","M","m","m","","MM","mM","Mm","R","M "])).encode())
    if k<.55: return list(r.choice([b"\x1b[M",b"\x1b[M",b"M",b"[M"]))+[r.choice([31,32,33,35,64,67,96,99,127,128,160,163,255,r.randrange(256)]) if i==0 else r.randrange(256) for i in range(r.choice([3,3,3,3,2,4,1,0,6]))]
    if k<.85:
        s=good(r,r.choice(["sgr","urxvt","x10"]))
        for _ in range(r.randint(1,3)):
            i=r.randrange(len(s)+1); j=r.random()
            if j<.35 and i<len(s): del s[i]
            elif j<.7: s.insert(i,r.choice([27,91,60,59,77,109,48,49,57,32,45,43,r.randrange(256)]))
            elif i<len(s): s[i]=r.choice([27,91,60,59,77,109,48,49,57,32,45,43,r.randrange(256)])
        return s
    return [r.choice([27,91,60,59,77,109,48,49,50,r.randrange(256)]) for _ in range(r.randint(0,14))]
def case(r,n):
    ops=[]
    for _ in range(n):
        if r.random()<.5: ops.append({"k":"reset"})
        b=good(r,r.choice(["sgr","sgr","x10","urxvt"])) if r.random()<.4 else rare(r)
        # numbers of ten digits or so are not generated: whether they are too large is left open
        if any(9<len(x.lstrip(b"0"))<20 for x in bytes(b).replace(b"M",b";").replace(b"m",b";").replace(b"<",b";").replace(b"[",b";").split(b";")): continue
        ops.append({"k":"seq","bytes":b,"dt":0})
    return {"cfg":{"m":"any","log":False},"ops":ops}
def run(c):
    beh=c.explore("Mouse","CodeCfgs",ops="CodeOps",depth=1,cap=c.pick(3000,8000),label="every event in every protocol")
    c.replay_judge("Mouse","mouse",beh,label="replayed model behaviours")
    every=[{"cfg":{"m":"any","log":False},"ops":[o for k in range(256) for o in
             ([{"k":"reset"}]+([{"k":"seq","bytes":list(f%(k,)),"dt":0} for f in (b"\x1b[<%d;7;9M",b"\x1b[<%d;7;9m",b"\x1b[%d;7;9M")]+([{"k":"seq","bytes":[27,91,77,k,40,41],"dt":0}])))]}]
    c.replay_judge("Mouse","mouse",every,label="every button code")
    c.replay_judge("Mouse","mouse",[case(c.rng,c.rng.randint(1,30)) for _ in range(c.pick(1500,20000))],label="encoded, odd and malformed reports")
