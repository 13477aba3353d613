"""V02: lists."""
from lib.aside import sprinkle
from lib.choice import text,A,Q,spelling
ASSUMPTIONS=["lists have at least one row (smaller heights count as one)"]
def case(r,sizes=[0,1,2,3,5,8,12,15,25]):
    items=[text(r,5) for _ in range(r.choice(sizes))]
    letters=[x for t in items for x in t if x!=1032] or [1097]
    ops=[]
    if r.random()<.6: ops.append({"k":"typing","on":True})
    if r.random()<.7: ops.append({"k":"height","n":r.choice([-4,0,1,2,3,4,7,20])})
    if r.random()<.25: ops.append({"k":"filterfunc","f":r.choice(["pre","suf"])})
    if r.random()<.2: ops.append({"k":"renderfunc"})
    nav=r.choice([.3,.5,.7]); q=r.choice([.1,.3,.5])
    for _ in range(r.randint(3,30)):
        x=r.random()
        if x<.03: ops+=[{"k":"key","key":"rune","r":a} for a in spelling(r,items)]; continue
        if x<nav*.8: o={"k":"key","key":r.choice(["down","down","up","home","end","pgup","pgdown","ctrl+u","ctrl+d"])}
        elif x<nav: o={"k":"key","key":"rune","r":r.choice([1107,1106,1106,1103,1071])}
        elif x<nav+.2: o={"k":"key","key":r.choice(["space","space","space","ctrl+a","esc"])}
        elif r.random()<q: o=r.choice([{"k":"key","key":"rune","r":r.choice(letters)},{"k":"key","key":"rune","r":r.choice(Q)},{"k":"key","key":"backspace"},{"k":"key","key":"backspace"}])
        elif r.random()<.6: o={"k":"key","key":r.choice(["enter","ctrl+c","left","tab","f1","shift+up"])}
        else: o=r.choice([{"k":"height","n":r.choice([-1,0,1,2,3,6])},{"k":"typing","on":r.random()<.8},{"k":"other","m":r.choice(["size","mouse","nil","x"])},{"k":"filterfunc","f":r.choice(["pre","suf"])},{"k":"renderfunc"},{"k":"key","key":"rune","r":1113}])
        ops.append(o)
    return {"cfg":{"multi":r.random()<.6,"items":items},"ops":ops}
def run(c):
    beh=c.explore("List","Cfgs",depth=c.pick(4,6),cap=c.pick(8000,60000))
    c.replay_judge("List","list",beh,label="replayed model behaviours")
    c.replay_judge("List","list",sprinkle(c.rng,[case(c.rng) for _ in range(c.pick(4000,60000))]),label="random sessions")
    c.replay_judge("List","list",sprinkle(c.rng,[case(c.rng,[70,130,300]) for _ in range(c.pick(40,400))]),label="long lists",per_shard=20)
