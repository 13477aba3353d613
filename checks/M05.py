"""M05: the terminal reports the mouse exactly while it is switched on."""
def walk(r):
    ops=[]
    for _ in range(r.randint(2,20)):
        k=r.random()
        if k<.45: ops.append({"k":"power","on":True})
        elif k<.8: ops.append({"k":"power","on":False})
        elif k<.9: ops.append({"k":"out","ok":r.random()<.6})
        elif k<.95: ops.append({"k":"reset"})
        else: ops.append({"k":"seq","bytes":list(b"\x1b[<0;3;4M"),"dt":1})
    return {"cfg":{"m":"any","log":False},"ops":ops}
def run(c):
    beh=c.explore("Mouse","PowerCfgs",ops="PowerOps",depth=c.pick(5,7),cap=c.pick(2000,10000),label="switching and failing output")
    c.replay_judge("Mouse","mouse",beh,label="replayed model behaviours")
    c.replay_judge("Mouse","mouse",[walk(c.rng) for _ in range(c.pick(600,6000))],label="random switching")
