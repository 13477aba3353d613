"""V06: single-line text input."""
from lib.aside import sprinkle
from lib import glyphs
ASSUMPTIONS=["length validators are used with one-byte characters"]
def case(r,L=1):
    """L: how many times larger than usual"""
    ascii_only=r.random()<.25; wild=r.random()<.3
    t=lambda n:[r.choice(glyphs.ASCII) for _ in range(r.randint(0,n))] if ascii_only else glyphs.text(r,n,wild)
    ops=[{"k":"focus","on":True}] if r.random()<.9 else []
    if r.random()<.5: ops.append({"k":"set","t":t(9*L),"at":r.randint(-1,10*L)})
    if r.random()<.2: ops.append({"k":"placeholder","t":t(5)})
    if ascii_only and r.random()<.7:
        ops.append({"k":"validator","v":[{"t":r.choice(["notempty","min","max","range"]),"a":r.randint(0,4),"b":r.randint(3,8)} for _ in range(r.randint(0,3))]})
    buf=[]
    for _ in range(r.randint(4,35)):
        x=r.random()
        if buf: ops.append({"k":"key","key":"rune","cp":buf.pop(0)})
        elif x<.3:
            if ascii_only: ops.append({"k":"key","key":"rune","cp":r.choice([97,98,66])})
            elif wild: ops.append({"k":"key","key":"rune","cp":glyphs.one(r)})
            else:
                buf=list(r.choice(glyphs.CLUSTERS)); ops.append({"k":"key","key":"rune","cp":buf.pop(0)})
        elif x<.6: ops.append({"k":"key","key":r.choice(["left","left","left","right","right","home","end","ctrl+e"])})
        elif x<.78: ops.append({"k":"key","key":r.choice(["backspace","delete"])})
        elif x<.86: ops.append({"k":"key","key":r.choice(["space","ctrl+a","ctrl+a","ctrl+u"])})
        elif x<.90: ops.append({"k":"set","t":t(12*L),"at":r.randint(-1,13*L)})
        elif x<.92: ops.append({"k":"content","t":t(12*L)})
        elif x<.94: ops.append({"k":"width","n":r.choice([-1,0,1,2,3,4,5,8,20,20*L])})
        else: ops.append(r.choice([{"k":"focus","on":r.random()<.7},{"k":"show","on":r.random()<.5},{"k":"other","m":r.choice(["size","mouse","nil","x"])},
                                   {"k":"key","key":r.choice(["up","enter","tab","esc","ctrl+x","alt+x","f1"])}]))
    return {"cfg":{"w":r.choice([-1,0,1,2,3,4,5,6,8,12,30] if L==1 else [1,12,60,80,200])},"ops":ops}
def run(c):
    beh=c.explore("TextInput","Cfgs",depth=c.pick(5,6),cap=c.pick(9000,60000))
    c.replay_judge("TextInput","input",beh,label="replayed model behaviours")
    c.replay_judge("TextInput","input",sprinkle(c.rng,[case(c.rng) for _ in range(c.pick(4000,60000))]),label="random sessions",per_shard=1000)
    c.replay_judge("TextInput","input",sprinkle(c.rng,[case(c.rng,25) for _ in range(c.pick(24,240))]),label="long texts",per_shard=3)
