"""T07: inline screen of a running program."""
ASSUMPTIONS=["the terminal behaves as spec/Term.tla and its size is the one the program was told (WindowSizeMsg)",
 "characters are those whose display width does not depend on clustering (no ZWJ, flag or modifier sequences)"]
A1=[1097,1098,1099,1120,1201,1202,1203,1205,1211]; A2=[2001,2002,2003,2004,2008,2010]
SG=[0,1,3,4,7,31,32,44,39,49,22]
def line(r,w):
    p=r.choice([0,.3,.8]); sp=r.choice([0,0,.25])
    n=r.choice([0,1,2,w-1,w,w+1,w+4,r.randint(0,w+6)]) if w else r.randint(0,4)
    out=[]
    for _ in range(max(n,0)):
        if r.random()<sp: out.append(-r.choice(SG)-1)
        out.append(r.choice(A2) if r.random()<p else r.choice(A1+[1032]))
    if r.random()<sp: out.append(-1)
    return out
def case(r,T=None):
    tw,th=T or r.choice([(1,1),(2,2),(4,3),(9,4),(12,6)])
    y0=r.randint(0,th-1)
    def small(): return [line(r,0) if tw>8 else [] for _ in range(r.randint(1,th))]
    first=small(); ops=[{"k":"start"}]; sized=r.random()<.85; susp=False; w=0; h=0; prev=first
    if sized: w,h=tw,r.choice([th,th,r.randint(1,th)]); ops.append({"k":"size","w":w,"h":h})
    for _ in range(r.randint(2,22)):
        x=r.random()
        if x<.12 and sized:
            if r.random()<.7: w=r.randint(1,max(14,tw))
            if r.random()<.6: h=r.randint(1,th)
            ops.append({"k":"size","w":w,"h":h})
        elif x<.18:
            ops.append({"k":"resume" if susp else "suspend"}); susp=not susp
        elif not sized: prev=small(); ops.append({"k":"view","lines":prev})
        else:
            y=r.random()
            if y<.45:
                v=[list(l) for l in prev]                       # change a little
                z=r.random()
                if z<.4: v[r.randrange(len(v))]=line(r,w)
                elif z<.6: v.insert(r.randint(0,len(v)),line(r,w))
                elif z<.9 and len(v)>1: del v[r.randrange(len(v))]
                v=v[:th+4]
            elif y<.5: v=prev
            else: v=[line(r,w) for _ in range(r.randint(1,th+2))]
            prev=v; ops.append({"k":"view","lines":v})
    return {"cfg":{"tw":tw,"th":th,"y0":y0,"lines":first},"ops":ops}
def run(c):
    beh=c.explore("Inline","Cfgs",depth=c.pick(4,6),cap=c.pick(4000,30000))
    c.replay_judge("Inline","inline",beh,label="replayed model behaviours",c2=True)
    c.replay_judge("Inline","inline",[case(c.rng) for _ in range(c.pick(2500,25000))],label="random histories",c2=True,per_shard=6000)
    big=[(80,24),(120,50),(200,6),(9,60),(300,3)]
    c.replay_judge("Inline","inline",[case(c.rng,c.rng.choice(big)) for _ in range(c.pick(40,400))],label="large screens",c2=True,per_shard=5)
