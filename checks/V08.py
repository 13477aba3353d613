"""V08: forms."""
from lib.aside import sprinkle
KINDS=["own","own","ptr","iface","choice","anychoice","input","input","plain","strange"]
CH=["a","b","c","d","x","Z","0","@",".","é","世"]
def fval(r,kind):
    if kind in("plain","strange") : return r.choice(["","ab","世"])
    x=r.random()
    if x<.3: return ""
    if x<.45: return r.choice(["a@b.cd","a.b@x-a.Zd","a@b","a@.cd","@b.cd","a@b.c","ab@cd.0a"]) if kind!="x" else ""
    if x<.55 and kind!="input": return r.choice(["  "," a ","\t"])
    return "".join(r.choice(CH) for _ in range(r.randint(0,6)))
def vals(r):
    o=[]
    for _ in range(r.choice([0,1,1,2,3])):
        o.append(r.choice([{"t":"required"},{"t":"required"},{"t":"min","n":r.randint(0,4)},{"t":"max","n":r.randint(0,6)},{"t":"email"},{"t":"pattern"},{"t":"even"}]))
    return o
def case(r,fields=[0,1,2,3,3,4,5],n=30):
    names=["n%d"%i for i in range(max(fields)+7)]; ops=[]
    def field(k):
        kind=r.choice(KINDS); n=names.pop(0) if k=="field" else "other%d"%r.randint(0,9)
        return {"k":k,"name":n,"label":r.choice(["Name","E-mail","世界",""]),"kind":kind,"v":fval(r,kind),"vs":vals(r)}
    for _ in range(r.choice(fields)):
        ops.append(field("field"))
        if r.random()<.15: ops.append(field("branch"))
    if r.random()<.3: ops.append({"k":"init"})
    for _ in range(r.randint(4,n)):
        x=r.random()
        if x<.2: ops.append({"k":"key","key":"tab"})
        elif x<.3: ops.append({"k":"key","key":"shift+tab"})
        elif x<.48: ops.append({"k":"key","key":"enter"})
        elif x<.75: ops.append({"k":"key","key":"rune","ch":r.choice(CH)})
        elif x<.87: ops.append({"k":"key","key":"backspace"})
        elif x<.9 and len(names)>3: ops.append(field(r.choice(["field","branch"])))
        elif x<.92: ops.append({"k":"key","key":r.choice(["esc","ctrl+c"])})
        else: ops.append(r.choice([{"k":"key","key":"up"},{"k":"key","key":"f1"},{"k":"other","m":r.choice(["size","mouse","nil","x"])},{"k":"init"}]))
    from lib import choice
    return {"cfg":{"title":choice.text(r,r.choice([0,6,12]))},"ops":ops}
def run(c):
    c.tags=["vform"]
    beh=c.explore("Form","Cfgs",depth=c.pick(6,7),cap=c.pick(7000,50000))
    c.replay_judge("Form","form",beh,label="replayed model behaviours")
    c.replay_judge("Form","form",sprinkle(c.rng,[case(c.rng) for _ in range(c.pick(4000,60000))]),label="random sessions",per_shard=2000)
    c.replay_judge("Form","form",sprinkle(c.rng,[case(c.rng,[15,40],90) for _ in range(c.pick(30,300))]),label="long forms",per_shard=10)
