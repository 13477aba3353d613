"""K01: the clipboard uses the first available provider and never lies."""
TAGS=["vclip"]
NOENV={"TERM":"","SSH_TTY":"","SSH_CLIENT":"","SSH_CONNECTION":""}
MIMES=["text/plain"]*4+["text/html","text/rtf","image/png","application/octet-stream"]
def text(r,empty=.05):
    if r.random()<empty: return []
    k=r.random()
    if k<.5: return [r.choice([97,98,32,10,13,9,0,27,92,123,255,128,0xe4,0xb8,0x96,39,34,36,96]) for _ in range(r.randint(1,8))]
    if k<.9: return list(r.choice(["hello","日本","a\r\nb","é\n","'; rm x","$(x)"," \n"]).encode())
    return [r.randrange(256) for _ in range(r.choice([1,2,3,57,58,300]))]
def env(r):
    e=dict(NOENV)
    e["TERM"]=r.choice(["","xterm","xterm-256color","screen","tmux","tmux-256color","dumb","xterm-kitty","linux"])
    if r.random()<.4: e[r.choice(["SSH_TTY","SSH_CLIENT","SSH_CONNECTION"])]="x"
    return e
def fake(r,i): return {"t":"fake","name":"P%d"%i,"mime":r.choice(MIMES),"avail":r.random()<.6,"c":text(r,.6)}
def hops(r):
    x=r.random()
    if x<.3: return {"k":"enable","max":r.choice([-1,0,1,2,3,5,100]),"age":r.choice([-1,0,0,1,2]),"huge":r.random()<.1}
    if x<.4: return {"k":"disable"}
    if x<.5: return {"k":"clear"}
    if x<.6: return {"k":"restore","i":r.randint(0,6)}
    if x<.7: return {"k":"recent","n":r.randint(-1,4)}
    if x<.8: return {"k":"entry","i":r.randint(0,6)}
    if x<.9: return {"k":"scribble"}
    return {"k":"image","m":r.choice(["r","rpng","rjpeg","w","wpng","wjpeg"])}
def fakes(r):
    n=r.choice([0]+[1,2,3,4]*4); ps=[fake(r,i) for i in range(n)]; ops=[]
    for _ in range(r.randint(1,25)):
        x=r.random()
        if x<.2 and n: ops.append({"k":"avail","i":r.randint(1,n),"on":r.random()<.5})
        elif x<.3 and n: ops.append({"k":"fail","i":r.randint(1,n),"r":r.random()<.4,"w":r.random()<.4})
        elif x<.6: ops.append({"k":"write","c":text(r),"m":r.choice(["plain","plain","html","rtf"])})
        elif x<.8: ops.append({"k":"read","m":r.choice(["plain","html","rtf"])})
        else: ops.append(hops(r))
    return {"cfg":{"how":"fakes","provs":ps,"tools":[],"tty":False,"env":NOENV,"osc52":False,"native":False,"coarse":False},"ops":ops}
def real(r):
    how=r.choice(["builder","builder","new","new","global"]); osc=r.random()<.7; nat=r.random()<.7
    if how!="builder": ps=[{"t":"native"},{"t":"osc52"}]
    else: ps=[fake(r,i) for i in range(r.randint(0,2))]+([{"t":"osc52"}] if osc else [])+([{"t":"native"}] if nat else [])
    tools=r.choice([[],["xclip"],["xsel"],["wl-copy"],["wl-paste"],["wl-copy","wl-paste"],["xclip","xsel"],["wl-copy","xsel"],["wl-copy","wl-paste","xclip","xsel"]])
    ops=[]
    for _ in range(r.randint(2,9)):
        x=r.random(); f=[i+1 for i,p in enumerate(ps) if p["t"]=="fake"]; m=[i+1 for i,p in enumerate(ps) if p["t"]!="osc52"]
        if x<.15: ops.append({"k":"env","e":env(r)})
        elif x<.25 and f: ops.append({"k":"avail","i":r.choice(f),"on":r.random()<.3})
        elif x<.37 and m: ops.append({"k":"fail","i":r.choice(m),"r":r.random()<.4,"w":r.random()<.4})
        elif x<.7: ops.append({"k":"write","c":text(r),"m":r.choice(["plain","plain","html","rtf"]) if how!="global" else "plain"})
        elif x<.9 or how=="global": ops.append({"k":"read","m":r.choice(["plain","html","rtf"]) if how!="global" else "plain"})
        else: ops.append(hops(r))
    return {"cfg":{"how":how,"provs":ps,"tools":tools,"tty":r.random()<.75,"env":env(r),"osc52":osc,"native":nat,"coarse":False},"ops":ops}
def blob(r):
    """more than a pipe holds"""
    n=r.choice([4095,4097,65535,65536,65537,70001,140000]); k=r.random()
    if k<.5: return (list("日本語 text\n".encode())*(n//10+1))[:n] if k<.25 else [97+i%26 for i in range(n)]
    x=r.randrange(251); return [(x+i*i)%256 for i in range(n)]
def large(r,b):
    for o in b["ops"]:
        if o["k"]=="write" and r.random()<.5: o["c"]=blob(r)
    return b
def run(c):
    c.tags=TAGS
    beh=c.explore("Clip","ChainCfgs",ops="ChainOps",depth=c.pick(4,5),cap=c.pick(6000,40000),label="provider chains")
    c.replay_judge("Clip","clip",beh,label="replayed model behaviours")
    c.replay_judge("Clip","clip",[fakes(c.rng) for _ in range(c.pick(2000,20000))],label="random chains")
    c.replay_judge("Clip","clipenv",[real(c.rng) for _ in range(c.pick(500,4000))],label="the real providers on a pseudo terminal and made-up clipboard programs")
    c.replay_judge("Clip","clip",[large(c.rng,fakes(c.rng)) for _ in range(c.pick(12,100))],label="large texts",per_shard=2)
    c.replay_judge("Clip","clipenv",[large(c.rng,real(c.rng)) for _ in range(c.pick(16,150))],label="large texts through the real providers",per_shard=2)
