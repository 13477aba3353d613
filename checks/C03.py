"""C03: terminals and the values of package core are immutable and always valid."""
TAGS=["vcore"]
def case(r):
    ops=[]; n=0; z=lambda: r.choice([-1000,-2,-1,0,0,1,1,2,80,5000])
    for _ in range(r.randint(2,20)):
        k=r.random()
        if n==0 or k<.2:
            h=r.choice(["plain","nil","caps","caps","caps"]); b=lambda: r.random()<.6
            ops.append({"k":"term","how":h,"caps":{"ansi":b(),"depth":r.choice([0,8,256,16777216,16777216,1,-8,9,16777217]),"mouse":b(),"alt":b(),"cur":b()}}); n+=1
        elif k<.55: ops.append({"k":"size","i":r.randint(1,n),"w":z(),"h":z()}); n+=1
        elif k<.65: ops.append({"k":"raw","i":r.randint(1,n),"ok":r.random()<.7}); n+=1
        elif k<.8: ops.append({"k":"pos","r":z(),"c":z(),"dr":z(),"dc":z()})
        elif k<.95: ops.append({"k":"cell","t":[r.choice([97,128512,32,0x301])]*r.randint(0,2),"w":z()})
        else: ops.append({"k":"rawmode","ok":r.random()<.5})
    return {"cfg":{"n":0},"ops":ops}
def run(c):
    c.tags=TAGS
    beh=c.explore("Core","Cfgs",depth=c.pick(3,4),cap=c.pick(3000,30000),label="terminals made from each other")
    c.replay_judge("Core","core",beh,label="replayed model behaviours")
    c.replay_judge("Core","core",[case(c.rng) for _ in range(c.pick(1500,15000))],label="random histories")
