"""V01: viewport."""
from lib.aside import sprinkle
ASSUMPTIONS=["display widths of the sampled characters are those of the atom table in harness/cmd/drv/text.go"]
A=[1097,1098,1099,1120,1202,1201,2001,2004,2005,1032]
def line(r,n): return [r.choice(A) for _ in range(r.randint(0,n))]
def lines(r,n,m=6): return [line(r,m) for _ in range(r.randint(0,n))]
KEYS="up k down j pgup b ctrl+b pgdown f ctrl+f space home g end G ctrl+u ctrl+d x left enter ctrl+k".split()
def op(r,mouse,sizes):
    x=r.random()
    if x<.40: return {"k":"key","key":r.choice(KEYS)}
    if x<.58: return {"k":"mouse","btn":r.choice(["left","left","right","none","wheelup","wheeldown"]),"act":r.choice(["press","release","motion"]),"x":0,"y":r.randint(0,9)}
    if x<.66: return {"k":"append","lines":lines(r,3) or [[1097]]}
    if x<.72: return {"k":"content","lines":lines(r,14)}
    if x<.80: return {"k":r.choice(["size","winsize"]),"w":r.choice(sizes),"h":r.randint(-1,7)}
    if x<.86: return {"k":"follow","on":r.random()<.6}
    if x<.92: return {"k":"offset","n":r.randint(-3,15)}
    if x<.94: return {"k":"lps","n":r.randint(-1,5)}
    if x<.96: return {"k":"mouseon","on":r.random()<.8}
    return {"k":r.choice(["top","bottom"])}
def cases(r,n,wrap):
    out=[]
    for _ in range(n):
        sizes=[1,2,3,5,8,20,0,-2]
        out.append({"cfg":{"lines":lines(r,14),"w":r.choice(sizes),"h":r.randint(-1,8),"wrap":wrap,"mouse":r.random()<.7},
                    "ops":[op(r,True,sizes) for _ in range(r.randint(5,30))]})
    return out
def large(r,n):
    """long texts, wide and tall windows"""
    out=[]
    for _ in range(n):
        w,h=r.choice([1,7,80,132,300]),r.choice([1,5,24,60]); m=r.choice([0,3,3,w+20])
        big=lambda k: lines(r,k,m) if m<20 else lines(r,min(k,60),m)
        o=[]
        for _ in range(r.randint(4,12)):
            x=op(r,True,[1,40,80,200])
            if x["k"]=="offset": x["n"]=r.randint(0,700)
            if x["k"]=="append" and r.random()<.5: x["lines"]=big(150) or [[1097]]
            if x["k"]=="content": x["lines"]=big(600)
            if x["k"] in("size","winsize"): x["h"]=r.randint(1,60)
            if x["k"]=="lps": x["n"]=r.choice([1,30,100])
            if x["k"]=="mouse": x["y"]=r.randint(0,70)
            o.append(x)
        out.append({"cfg":{"lines":big(r.choice([60,300,900])),"w":w,"h":h,"wrap":r.random()<.3,"mouse":True},"ops":o})
    return out
def run(c):
    beh=c.explore("Viewport","Cfgs",depth=c.pick(4,7),cap=c.pick(20000,80000))
    c.replay_judge("Viewport","viewport",beh,label="replayed model behaviours")
    c.replay_judge("Viewport","viewport",sprinkle(c.rng,cases(c.rng,c.pick(1500,15000),False)),label="random, cut lines")
    c.replay_judge("Viewport","viewport",sprinkle(c.rng,cases(c.rng,c.pick(500,5000),True)),label="random, wrapped lines")
    c.replay_judge("Viewport","viewport",sprinkle(c.rng,large(c.rng,c.pick(60,600))),label="large texts",per_shard=20)
    c.replay_judge("Viewport","viewport",[{"scenario":"wrap-overflow","cfg":{"lines":[[1097]*7,[1098]*3],"w":3,"h":2,"wrap":True,"mouse":False,"strict":True},"ops":[]}],label="scenario wrap-overflow")
