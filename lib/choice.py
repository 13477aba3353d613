"""Random scenarios for the two choice components (spec/Select.tla)."""
# letters of labels and of filters: both cases, several scripts, wide characters, spaces
A=[1097,1098,1065,1066,1120,1203,1209,1211,2001,2004,1032,1110]
Q=[1097,1098,1065,1120,1203,1209,1211,2001,2004,1098,1203]
def text(r,n,lo=0): return [r.choice(A) for _ in range(r.randint(lo,n))]
def opts(r,n=None):
    n=r.choice([0,1,2,3,5,8,12,15] if n is None else n)
    return [{"label":text(r,5),"desc":r.choice([[],[],text(r,4)]),"dis":r.random()<.15} for _ in range(n)]
def spelling(r,labels):
    """a part of a label, often its end, typed out"""
    l=r.choice(labels or [[]]); a=r.randint(0,len(l)); b=len(l) if r.random()<.6 else r.randint(a,len(l))
    return [x for x in l[a:b] if x!=1032]
def case(r,multi,sizes=None):
    cfg={"multi":multi,"title":r.choice([[],text(r,6,1),text(r,6,1)]),"opts":opts(r,sizes)}
    ops=[]
    if r.random()<.7: ops.append({"k":"filterable","on":True})
    if r.random()<.7: ops.append({"k":"height","n":r.choice([-1,0,1,2,3,4,7,20])})
    if r.random()<.2: ops.append({"k":"filterfunc","f":r.choice(["pre","suf"])})
    if r.random()<.2: ops.append({"k":"renderfunc"})
    en=[i for i,o in enumerate(cfg["opts"]) if not o["dis"]]
    if multi:
        for k in ("max","min"):
            if r.random()<.5: ops.append({"k":k,"n":r.choice([-1,0,1,2,3,5])})
        if r.random()<.3: ops.append({"k":"selected","i":r.sample(en,r.randint(0,len(en)))+r.choice([[],[],[99],[-1]])})
    labels=[x for o in cfg["opts"] for x in o["label"]] or [1097]
    # how this user tends to behave
    nav=r.choice([.2,.5,.7]); q=r.choice([.05,.3,.5])
    for _ in range(r.randint(3,30)):
        x=r.random()
        if x<.03: ops+=[{"k":"key","key":"rune","r":a} for a in spelling(r,[o["label"] for o in cfg["opts"]])]; continue
        if x<nav*.8: o={"k":"key","key":r.choice(["down","down","down","up","home","end"])}
        elif x<nav: o={"k":"key","key":"rune","r":r.choice([1107,1106,1106,1103,1071])}
        elif x<nav+.15: o={"k":"key","key":r.choice(["enter","space","space"])}
        elif x<nav+.2 and multi: o={"k":"key","key":"rune","r":r.choice([1097,1110])}
        elif r.random()<q: o=r.choice([{"k":"key","key":"rune","r":r.choice(labels)},{"k":"key","key":"rune","r":r.choice(Q)},{"k":"key","key":"backspace"},{"k":"key","key":"backspace"},{"k":"key","key":"esc"}])
        elif r.random()<.6: o={"k":"key","key":r.choice(["enter","space","space","ctrl+c","left","tab","f1"])}
        else:
            y=r.random()
            if y<.3: o={"k":"height","n":r.choice([0,1,2,3,6])}
            elif y<.5: o={"k":"filterable","on":r.random()<.8}
            elif y<.6: o={"k":"other","m":r.choice(["size","mouse","nil","x"])}
            elif y<.65: o={"k":"renderfunc"}
            elif y<.75: o={"k":"options","opts":opts(r)}; en=[i for i,p in enumerate(o["opts"]) if not p["dis"]]
            elif multi: o=r.choice([{"k":"max","n":r.choice([0,1,2,3,-2])},{"k":"min","n":r.choice([0,1,2,3,-2])},{"k":"selected","i":r.sample(en,min(len(en),r.randint(0,3)))+r.choice([[],[],[99],[-1]])}])
            else: o={"k":"other","m":"nil"}
        ops.append(o)
    return {"cfg":cfg,"ops":ops}
