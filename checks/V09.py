"""V09: confirm and modal dialogs."""
from lib.aside import sprinkle
ASSUMPTIONS=["modal boxes are drawn inside the terminal and at least as large as their frame"]
A=[1097,1098,1099,1065,1120,1202,2001,2004,1032,1203]
def text(r,n,lo=0): return [r.choice(A) for _ in range(r.randint(lo,n))]
FIRST=[1097,1065,1090,1122,1209,1203,2001,1089,1121,1078,1046]
def label(r): return r.choice([[],[r.choice([x for x in FIRST if x!=1203])]+text(r,4),[1078,1111],[1089,1101,1115],[1067,1097,1110,1099,1101,1108]])
def ckey(r):
    x=r.random()
    if x<.35: return {"k":"key","key":"rune","r":r.choice([x for x in FIRST if x!=1203]+[1110,1099,1067,1113,1121,1089,1122])}
    if x<.8: return {"k":"key","key":r.choice(["left","right","tab","shift+tab","up","down","space","home"])}
    return {"k":"key","key":r.choice(["enter","esc","ctrl+c"])}
def confirm(r):
    ops=[]
    def build():
        x=r.random()
        if x<.2: return {"k":"desc","t":text(r,6)}
        if x<.4: return {"k":"affirmative","t":label(r)}
        if x<.6: return {"k":"negative","t":label(r)}
        if x<.8: return {"k":"cancel","on":r.random()<.7}
        return {"k":r.choice(["defyes","defno"])}
    for _ in range(r.randint(0,5)): ops.append(build())
    for _ in range(r.randint(1,14)):
        x=r.random()
        ops.append(ckey(r) if x<.85 else build() if x<.95 else {"k":"other","m":r.choice(["size","mouse","nil","x"])})
    return {"cfg":{"title":text(r,8)},"ops":ops}
def buttons(r):
    return [{"label":text(r,5),"key":r.choice(FIRST),"act":"act%d"%i} for i in range(r.choice([0,1,2,2,3,4]))]
def modal(r,L=1):
    ops=[]
    for _ in range(r.randint(3,25)):
        x=r.random()
        if x<.12: ops.append({"k":"show"})
        elif x<.16: ops.append({"k":"hide"})
        elif x<.24: ops.append({"k":"buttons","b":buttons(r)})
        elif x<.60: ops.append({"k":"key","key":r.choice(["tab","tab","right","shift+tab","left","enter","enter","up","ctrl+c"])})
        elif x<.64: ops.append({"k":"key","key":"esc"})
        elif x<.80: ops.append({"k":"key","key":"rune","r":r.choice(FIRST+[1122])})
        elif x<.84: ops.append({"k":"winsize","w":r.randint(10*L,45*L),"h":r.randint(4*L,14*L)})
        elif x<.90: ops.append({"k":"size","w":r.randint(4,30*L),"h":r.randint(2,10*L)})
        elif x<.93: ops.append({"k":"pos","x":r.randint(0,12*L),"y":r.randint(0,4*L)})
        elif x<.95: ops.append({"k":"center"})
        elif x<.97: ops.append({"k":"dim","on":r.random()<.6})
        else: ops.append({"k":"other","m":r.choice(["mouse","nil","x"])})
        if r.random()<.12: ops.append({"k":"view"})
    return {"cfg":{"title":r.choice([[],text(r,12*L,1)]),"content":[text(r,14*L) for _ in range(r.randint(1,6*L))]},"ops":ops}
def run(c):
    beh=c.explore("Confirm","Cfgs",depth=c.pick(4,5),cap=c.pick(8000,60000))
    c.replay_judge("Confirm","confirm",beh,label="confirm: replayed model behaviours")
    c.replay_judge("Confirm","confirm",sprinkle(c.rng,[confirm(c.rng) for _ in range(c.pick(3000,30000))]),label="confirm: random")
    beh=c.explore("Modal","Cfgs",depth=c.pick(5,6),cap=c.pick(2500,20000))
    c.replay_judge("Modal","modal",beh,label="modal: replayed model behaviours",per_shard=2000)
    c.replay_judge("Modal","modal",sprinkle(c.rng,[modal(c.rng) for _ in range(c.pick(1200,12000))]),label="modal: random",per_shard=2000)
    c.replay_judge("Modal","modal",sprinkle(c.rng,[modal(c.rng,4) for _ in range(c.pick(24,240))]),label="modal: large",per_shard=6)
