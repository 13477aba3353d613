"""X01: terminal operations."""
ASSUMPTIONS=["the terminal behaves as spec/Term.tla (xterm)","positions are not negative; a restore follows a save on the same screen","raw mode is judged by the kernel's attributes of a pseudo terminal"]
A=[1097,1098,1099,1120,2001,2004,1202,1032]
def txt(r,n=9): return [1010 if x<.08 else 1013 if x<.12 else r.choice(A) for x in (r.random() for _ in range(r.randint(0,9)))]
def case(r,T=None):
    w,h=T or r.choice([(3,2),(6,4),(8,5),(1,1),(12,3)])
    ops=[]; saved=False; alt=False; broken=False; raw=False; hung=False; tty=r.random()<.9; n1,n2=(9,5) if not T else (w+9,max(w,h)+9)
    for _ in range(r.randint(5,40)):
        x=r.random()
        if x<.12: o={"k":"setpos","x":r.randint(0,w+2),"y":r.randint(0,h+2)}
        elif x<.30: o={"k":r.choice(["up","down","left","right"]),"n":r.randint(-2,n2)}
        elif x<.34: o={"k":"save"}; saved=True
        elif x<.38 and saved: o={"k":"restore"}
        elif x<.43: o={"k":r.choice(["hide","show"])}
        elif x<.45: o={"k":"style","n":r.randint(0,3)}
        elif x<.48: o={"k":"clear"}
        elif x<.52: o={"k":"clearline"}
        elif x<.56: o={"k":"clearfrom"}
        elif x<.61: o={"k":"clearlines","n":r.randint(-1,h+2)}
        elif x<.76: o={"k":"write","txt":txt(r,n1)}
        elif x<.82: o={"k":"writeat","x":r.randint(0,w),"y":r.randint(0,h),"txt":txt(r,n1)}
        elif x<.88:
            o={"k":r.choice(["alton","altoff"])}
            if not broken and (o["k"]=="alton")!=alt: alt=not alt; saved=False
        elif x<.93:
            o={"k":r.choice(["rawon","rawoff"])}
            if tty and not hung: raw=o["k"]=="rawon"
        elif x<.94: o={"k":r.choice(["getpos","readbuf","size","caps"])}
        elif x<.95:
            if hung: continue
            o={"k":"ptysize","w":r.randint(1,200),"h":r.randint(1,100)}
        elif x<.97: o={"k":"depth","ct":r.choice(["","truecolor","24bit","yes","256"]),"te":r.choice(["","xterm","xterm-256color","screen-256color","tmux-256color","dumb","linux"])}
        elif x<.985:
            if raw or hung or not tty: continue
            o={"k":"stty","n":r.randint(0,9)}
        elif x<.99 and not broken: o={"k":"break"}; broken=True
        elif x<.995 and not hung and tty: o={"k":"hangup"}; hung=True
        else: o={"k":"show"}
        ops.append(o)
    return {"cfg":{"w":w,"h":h,"tty":tty,"odd":r.random()<.4,"auto":r.random()<.3},"ops":ops}
def run(c):
    beh=c.explore("TermOps","Cfgs",depth=c.pick(3,4),cap=c.pick(5000,30000))
    for b in beh: b["cfg"].update(odd=False,auto=False)
    c.replay_judge("TermOps","termops",beh,label="replayed model behaviours",c2=True)
    c.replay_judge("TermOps","termops",[case(c.rng) for _ in range(c.pick(1500,20000))],label="random histories",c2=True,per_shard=6000)
    big=[(80,24),(132,20),(300,3),(5,150),(120,12)]
    c.replay_judge("TermOps","termops",[case(c.rng,c.rng.choice(big)) for _ in range(c.pick(60,600))],label="large screens",c2=True,per_shard=8)
