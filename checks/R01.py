"""R01: differential renderer."""
ASSUMPTIONS=["the terminal behaves as spec/Term.tla (xterm: pending wrap, background colour erase) and starts blank with the cursor home","display widths of the sampled characters are those of the atom table"]
A1=[1097,1098,1099,1120,1201,1203,1205]; A2=[2001,2002,2004]; AG=[1202,2005,2006,2007,2011]
COL=[1000000+x for x in (0xff0000,0x00ff00,0x0000ff,0x808080,0)]
def style(r):
    if r.random()<.35: return {"fg":-1,"bg":-1,"at":[]}
    return {"fg":r.choice([-1]+COL),"bg":r.choice([-1,-1]+COL),"at":[a for a in (1,3,4,7) if r.random()<.2]}
def txt(r,n=9):
    p=r.choice([0,.3,.8])
    return [r.choice(A2+AG) if r.random()<p else r.choice(A1+[1032]) for _ in range(r.randint(0,n))]
def case(r,T=None):
    w,h=T or r.choice([(1,1),(3,1),(4,2),(8,3),(12,5),(14,7)]); TW,TH=T or (14,7)
    ops=[]; cw,ch=w,h; bs=[[w,h],[w,h]]; W,H=w,h; n1,n2=(TW//2,TW+5) if T else (9,14)
    if not T and r.random()<.05:    # begins with the default size
        W,H=80,24; ops=[{"k":"resize","w":w,"h":h}]+[{"k":"buf","b":b,"w":w,"h":h} for b in (1,2)]
    for _ in range(r.randint(4,34)):
        x=r.random(); b=r.randint(1,2); bw,bh=bs[b-1]
        if x<.30: o={"k":"set","b":b,"x":r.randint(-1,bw),"y":r.randint(-1,bh),"a":r.choice(A1[:5]+A2+[1032,1032]),"st":style(r)}
        elif x<.45: o={"k":"str","b":b,"x":r.randint(-1,bw),"y":r.randint(-1,bh),"txt":txt(r,n1),"st":style(r)}
        elif x<.55: o={"k":"line","b":b,"y":r.randint(-1,bh),"txt":txt(r,n2),"st":style(r)}
        elif x<.58: o={"k":"fill","b":b,"a":r.choice([1097,1032,2001,1046]),"st":style(r)}
        elif x<.62: o={"k":"clearbuf","b":b}
        elif x<.90: o={"k":"render","b":b}; cw,ch=bw,bh
        elif x<.92: o={"k":"clear"}
        elif x<.94:
            o={"k":"resize","w":r.randint(1,TW),"h":r.randint(1,TH)}; cw,ch=o["w"],o["h"]
        elif x<.96: o={"k":"buf","b":b,"w":r.randint(1,TW),"h":r.randint(1,TH)}; bs[b-1]=[o["w"],o["h"]]
        elif x<.97: o={"k":"pool","b":b}; bs[b-1]=[cw,ch]
        elif x<.98: o={"k":"release","b":b}; bs[b-1]=[cw,ch]
        else: o={"k":r.choice(["hide","show"])}
        ops.append(o)
    ops.append({"k":"render","b":1})
    if r.random()<.5: ops.append({"k":"close"})
    return {"cfg":{"w":W,"h":H,"tw":TW,"th":TH,"bufsize":r.choice([0,0,16,4096])},"ops":ops}
def widen(b):
    # palette indexes of the model become true colours for the API
    m={-1:-1,1:1000000+0xff0000,2:1000000+0x00ff00}
    for o in b["ops"]:
        if "st" in o: o["st"]={"fg":m[o["st"]["fg"]],"bg":m[o["st"]["bg"]],"at":o["st"]["at"]}
    return b
def run(c):
    beh=c.explore("Render","Cfgs",depth=c.pick(4,6),cap=c.pick(9000,40000))
    c.replay_judge("Render","render",[widen(b) for b in beh],label="replayed model behaviours",c2=True)
    c.replay_judge("Render","render",[case(c.rng) for _ in range(c.pick(2500,25000))],label="random histories",c2=True,per_shard=6000)
    BIG=[(120,4),(300,2),(10,45),(3,130),(80,24),(132,12)]
    c.replay_judge("Render","render",[case(c.rng,c.rng.choice(BIG)) for _ in range(c.pick(100,1000))],label="large screens",c2=True,per_shard=8)
