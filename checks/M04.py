"""M04: context menus stay on screen and next to the pointer; hovering follows the areas."""
def menu(r):
    sw,sh=r.choice([(80,24),(r.randint(1,12),r.randint(1,12)),(r.randint(0,200),r.randint(0,100)),(1,1),(0,0)])
    def size(n): return r.choice([n,n+1,max(0,n-1),r.randint(0,n+2),r.randint(0,n+2),0,1,-1])
    # also on and beyond the border: a pointer left of or above the screen is not generated
    x,y=r.randint(0,sw+2),r.randint(0,sh+2)
    return {"k":"menu","x":x,"y":y,"mw":size(sw),"mh":size(sh),"sw":sw if r.random()<.97 else -1,"sh":sh if r.random()<.97 else -1}
def hovers(r):
    n=r.choice([1,2,3,4,6]); names=["a","b","c","d","e","f"]; W=r.choice([6,12,40])
    def area(i): return {"id":names[i] if r.random()<.93 else r.choice(names+[""]),"x":r.randint(-2,W),"y":r.randint(-2,W),"w":r.choice([-1,0,1,2,3,5,W]),"h":r.choice([-1,0,1,2,3,5,W])}
    areas=[area(i) for i in range(n)]; ops=[]; x,y=r.randrange(W),r.randrange(W)
    for _ in range(r.randint(3,40)):
        k=r.random()
        if k<.5 and areas:                               # to, inside, just before or just past an edge
            a=r.choice(areas); x=r.choice([a["x"]-1,a["x"],a["x"]+a["w"]-1,a["x"]+a["w"]]); y=r.choice([a["y"]-1,a["y"],a["y"]+a["h"]-1,a["y"]+a["h"]])
        elif k<.8: x+=r.choice([-1,0,1]); y+=r.choice([-1,0,1])
        else: x,y=r.randint(-1,W),r.randint(-1,W)
        k=r.random()
        if k<.06 and areas: areas=[dict(v) for v in areas]; areas[r.randrange(len(areas))]=area(r.randrange(n))
        elif k<.09: areas=list(areas); r.shuffle(areas)
        elif k<.1: areas=[]
        if r.random()<.04: ops.append({"k":"reset"})
        ops.append({"k":"hover","x":x,"y":y,"areas":areas})
    return {"cfg":{"m":"any","log":False},"ops":ops}
def run(c):
    beh=c.explore("Mouse","AreaCfgs",ops="AreaOps",depth=c.pick(2,3),cap=c.pick(6000,40000),label="small screens, menus and areas")
    c.replay_judge("Mouse","mouse",beh,label="replayed model behaviours")
    c.replay_judge("Mouse","mouse",[{"cfg":{"m":"any","log":False},"ops":[menu(c.rng) for _ in range(60)]} for _ in range(c.pick(400,6000))],label="random menus")
    c.replay_judge("Mouse","mouse",[hovers(c.rng) for _ in range(c.pick(2000,20000))],label="random hovering")
