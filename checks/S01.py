"""S01: style boxes. (S02 uses the same generator.)"""
from lib.aside import sprinkle
TECHNIQUE="TLA+ model of style setters and of the box a style makes (spec/Style.tla); TLC explores the setters exhaustively to a depth and checks the geometry, its behaviours and random ones are replayed into the package and every rendering compared with the model"
ASSUMPTIONS=["text without control characters or escape sequences"]
A=[1097,1098,1065,1120,1120,1203,1209,1211,2001,2003,2004,2005,2006,2008,1032,1032,1201,1202,1206,1048,1049,3002]
BORDERS=["normal","rounded","thick","double","ascii","own","hidden"]
SIDES=["top","right","bottom","left","all","vert","horz"]
def lines(r,L=1):
    return [[r.choice(A) for _ in range(r.choice([0,1,2,3,5,8])*L)] for _ in range(r.choice([1,1,1,2,3,5])*r.choice([1,L]))]
def grow(r,L,o):
    """the same operation with larger numbers"""
    if L>1:
        g=lambda v: v*r.choice([1,1,L,r.randint(1,L)]) if v>0 else v
        for k in ("n","m"):
            if k in o and o["k"] in("pad","mar","size","gap") and o.get("v","")[:3]!="min": o[k]=g(o[k])
        if "q" in o: o["q"]=[g(v) for v in o["q"]]
        if o["k"]=="content": o["c"]=lines(r,L)
        if o["k"]=="add": o["c"]=lines(r,L)
    return o
def op(r,full):
    x=r.random()
    n=r.choice([-1,0,1,1,2,3])
    if full and x<.3: return {"k":r.choice(["fg","bg","bc"]),"n":r.randint(1,9)}
    if full and x<.5: return {"k":"deco","v":r.choice(["bold","italic","underline","strike"]),"on":r.random()<.75}
    if full and x<.6: return {"k":"cap","v":r.choice(["none","16","256","true"])}
    x=r.random()
    if x<.12: return {"k":"content","c":lines(r)}
    if x<.27: return {"k":"border","v":r.choice(BORDERS)}
    if x<.38: return {"k":"side","v":r.choice(["top","bottom","left","right"]),"on":r.random()<.5}
    if x<.58:
        k=r.choice(["pad","mar"])
        if r.random()<.3: return {"k":k,"side":"given","n":0,"q":[r.choice([-1,0,1,2]) for _ in range(4)]}
        return {"k":k,"side":r.choice(SIDES),"n":n}
    if x<.78:
        v=r.choice(["w","h","w","h","minw","maxw","minh","maxh"])
        m=r.choice([-1,0,1,2,3]) if v[:3]=="min" else r.choice([2,5,9,14,20]) if v[:3]=="max" else r.choice([-1,0,1,2,3,4,5,7,10])
        return {"k":"size","v":v,"n":m}
    h=r.choice(["left","center","right"]); v=r.choice(["top","middle","bottom"])
    return r.choice([{"k":"align","h":h,"v":v},{"k":"alignh","h":h},{"k":"alignv","v":v}])
def case(r,prop,L=1):
    return {"cfg":{"content":lines(r,L),"prop":prop},"ops":[grow(r,L,op(r,prop=="S02")) for _ in range(r.randint(1,r.choice([4,9,16])))]}
def run(c,prop="S01"):
    full=prop=="S02"
    beh=c.explore("Style","Cfgs2" if full else "Cfgs",ops="Ops2" if full else "Ops",depth=c.pick(3,4),cap=c.pick(4000,40000))
    c.replay_judge("Style","style",beh,label="replayed model behaviours",per_shard=1000)
    c.replay_judge("Style","style",sprinkle(c.rng,[case(c.rng,prop) for _ in range(c.pick(2500,40000))]),label="random styles",per_shard=1000)
    c.replay_judge("Style","style",sprinkle(c.rng,[case(c.rng,prop,*((5,) if full else (11,))) for _ in range(c.pick(*((24,240) if full else (40,400))))]),label="large boxes",per_shard=3)
