"""S04: themes and the theme manager."""
TECHNIQUE="TLA+ model of theme derivation and of the theme manager (spec/Theme.tla): explored by TLC, behaviours and random sessions replayed and compared after every step; histories of goroutines sharing a manager are recorded and TLC searches a linearization of each"
NOTE="merging treats black colours, hidden borders and spacings below one as not set, as documented"
B=["normal","rounded","thick","double","ascii","own","",""]+["p%d"%k for k in range(1,9)]
def vals(r,f):
    if f=="n": return r.choice(["A","B","","own theme"])
    if f=="c": return [r.choice([0,0,r.randint(1,0xffffff)]) for _ in range(13)]
    if f=="b": return [r.choice(B) for _ in range(5)]
    if f=="s": return [r.choice([-1,0,1,2,8]) for _ in range(5)]
    return [r.choice([0,r.randint(1,0xffffff)]) for _ in range(4)]
def theme(r): return {f:vals(r,f) for f in "ncbst"}
def session(r,base):
    n=1; ops=[]
    for _ in range(r.randint(2,14)):
        x=r.random(); i,j=r.randint(1,n),r.randint(1,n); m=r.randint(1,len(base["spell"])); found=base["names"][m-1]>0
        if x<.15: o={"k":"new","t":theme(r)}; n+=1
        elif x<.35: f=r.choice("ncbst"); o={"k":"with","i":i,"f":f,"v":vals(r,f)}; n+=1
        elif x<.5: o={"k":"merge","i":i,"j":j}; n+=1
        elif x<.57: o={"k":"named","n":m}; n+=found
        elif x<.62: o={"k":"preset","p":r.randint(1,4)}; n+=1
        elif x<.68: o={"k":"mget"}; n+=1
        elif x<.78: o={"k":"mset","i":i}; n+=1
        elif x<.8: o={"k":"mnil"}; n+=1
        elif x<.92: o={"k":"mmerge","i":i}
        elif x<.97: o={"k":"mpreset","n":m}
        else: o={"k":"mreset"}
        ops.append(o)
    return {"cfg":dict(base,first=theme(r)),"ops":ops}
def only(s):  # a theme which sets one spacing
    return {"n":"m%d"%s,"c":[0]*13,"b":[""]*5,"s":[7 if k==s else 0 for k in range(5)],"t":[0]*4}
def race(r,base,rounds):
    gs=r.choice([2,3,3,4])
    progs=[]; m=0
    for g in range(gs):
        p=[]
        for _ in range(r.choice([1,1,2,3])):
            x=r.random()
            if x<.5 and m<5: p.append({"k":"mmerge","t":only(m)}); m+=1
            elif x<.7: p.append({"k":"mget"})
            elif x<.85: p.append({"k":"mset","t":theme(r)})
            elif x<.95: p.append({"k":"mpreset","p":r.randint(1,4)})
            else: p.append({"k":"mreset"})
        progs.append(p)
    return {"cfg":{"gs":gs,"rounds":rounds,"seed":r.randint(1,10**9),"first":theme(r),"presets":base["presets"]},"progs":progs}
def run(c):
    f=c.drive("themefacts",[{"cfg":{},"ops":[]}])[0]["cfg"]
    if f["all"]!=f["presets"] or f["fallback"]!=f["presets"][0] or f["offered"]!=[p["n"] for p in f["presets"]] or f["offered"]!=["Default","Dark","Light","HighContrast"]:
        c.violate("presets",what="the presets, the list of presets, the default and the names offered disagree",got=f)
    spell=["default","Default","DARK","dark","Light","lIGHT","HighContrast","highcontrast","High Contrast",""," dark","blue","darkk"]
    base={"presets":f["presets"],"spell":spell,"names":[1,1,2,2,3,3,4,4,0,0,0,0,0]}
    beh=c.explore("Theme","Cfgs",depth=c.pick(3,4),cap=c.pick(2500,20000))
    real=[]
    for b in beh:  # the model's own presets stand for two of the code's
        b["cfg"]=dict(b["cfg"],presets=[f["presets"][0],f["presets"][1]],spell=["DeFault","dark","none"]); real.append(b)
    c.replay_judge("Theme","theme",real,label="replayed model behaviours",per_shard=1000)
    c.replay_judge("Theme","theme",[session(c.rng,base) for _ in range(c.pick(1500,20000))],label="random sessions",per_shard=1000)
    rounds=c.pick(3000,20000)
    runs=c.drive("themerace",[race(c.rng,base,rounds) for _ in range(c.pick(40,200))],timeout=600)
    hist=[]
    for t in runs:
        h=t["histories"]; h=h if len(h)<=c.pick(150,1000) else c.rng.sample(h,c.pick(150,1000))
        hist+=[{"cfg":{k:t["cfg"][k] for k in ("gs","first","presets")},"ops":o,"obs":[]} for o in h]
    c.log(f"{len(hist)} different histories of {rounds*len(runs)} concurrent runs")
    c.verdict(c.judge("Theme",hist,nondet=True,label="concurrent histories",per_shard=4000),hist,"concurrent histories")
