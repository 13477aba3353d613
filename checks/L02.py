"""L02: layout boxes."""
TECHNIQUE="TLA+ model of layout boxes (spec/LayBox.tla, spec/Layout.tla); TLC explores the setters to a depth and checks the geometry, its behaviours and random ones are replayed into the package and every rendering compared"
ASSUMPTIONS=["plain text","minimum sizes not above maximum sizes (rejected by a panic)"]
A=[1097,1098,1065,1120,1120,1203,1209,1211,2001,2003,2004,2005,2006,2008,1032,1032,1201,1202,1206,1048,3002]
def lines(r,L=1):
    while 1:
        l=[[r.choice(A) for _ in range(r.choice([0,1,2,3,5,8])*L)] for _ in range(r.choice([1,1,1,2,3,5])*r.choice([1,L]))]
        if l!=[[]]: return l
def grow(r,L,o):
    """the same operation with larger numbers"""
    if L>1:
        g=lambda v: v*r.choice([1,1,L,r.randint(1,L)]) if v>0 else v
        for k in ("n","m"):
            if k in o and o["k"] in("pad","mar","size","gap") and o.get("v","")[:3]!="min": o[k]=g(o[k])
        if "q" in o: o["q"]=[g(v) for v in o["q"]]
        if o["k"]=="content": o["c"]=lines(r,L)
        if o["k"]=="add": o["c"]=lines(r,L)
    return o
def op(r):
    x=r.random(); n=r.choice([-1,0,1,1,2,3])
    if x<.35:
        k=r.choice(["pad","mar"]); s=r.choice(["all","vh","given"])
        o={"k":k,"side":s,"n":n}
        if s=="vh": o["m"]=r.choice([-1,0,1,2,4])
        if s=="given": o["q"]=[r.choice([-1,0,1,2,3]) for _ in range(4)]
        return o
    if x<.5: return {"k":"border","on":r.random()<.75}
    if x<.8:
        v=r.choice(["w","h","w","h","minw","maxw","minh","maxh"])
        return {"k":"size","v":v,"n":r.choice([-2,0,1,2,3,4]) if v[:3]=="min" else r.choice([4,5,7,9,14]) if v[:3]=="max" else r.choice([-1,0,1,2,3,4,5,7,10,15])}
    h,v=r.choice([("left","top"),("center","middle"),("right","top"),("left","middle"),("left","bottom"),("center","top"),("right","middle"),("center","bottom"),("right","bottom")])
    return {"k":"align","h":h,"v":v,"top":r.random()<.5}
def case(r,L=1):
    return {"cfg":{"content":lines(r,L),"pw":r.choice([0,3,8,20,80])*L,"ph":r.choice([0,2,5,10,24])*L},"ops":[grow(r,L,op(r)) for _ in range(r.randint(1,r.choice([3,8,14])))]}
def run(c):
    beh=c.explore("Layout","Cfgs",depth=c.pick(3,4),cap=c.pick(4000,40000))
    c.replay_judge("Layout","layout",beh,label="replayed model behaviours",per_shard=1000)
    c.replay_judge("Layout","layout",[case(c.rng) for _ in range(c.pick(3000,50000))],label="random boxes",per_shard=1000)
    c.replay_judge("Layout","layout",[case(c.rng,11) for _ in range(c.pick(60,600))],label="large boxes",per_shard=8)
