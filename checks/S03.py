"""S03: colours: constructors and what terminals of limited support are told."""
TECHNIQUE="TLA+ model of the palettes, nearest colours and hexadecimal notation (spec/Color.tla), itself checked exhaustively over the palette by TLC; what the package answers for colours is judged against the model's allowed answers"
def color(r):
    x=r.random()
    if x<.2: v=r.randint(0,255); return [v,v,v]
    if x<.35: v=r.randint(0,255); return [min(255,max(0,v+r.randint(-12,12))) for _ in range(3)]
    if x<.5: return [min(255,max(0,r.choice([0,95,135,175,215,255,47,48,115,155,195,235,128,192])+r.randint(-1,1))) for _ in range(3)]
    return [r.randint(0,255) for _ in range(3)]
PAL16=[(0,0,0),(128,0,0),(0,128,0),(128,128,0),(0,0,128),(128,0,128),(0,128,128),(192,192,192),(128,128,128),(255,0,0),(0,255,0),(255,255,0),(0,0,255),(255,0,255),(0,255,255),(255,255,255)]
CUBE=[0,95,135,175,215,255]
PAL256=[(a,b,d) for a in CUBE for b in CUBE for d in CUBE]+[(8+10*k,)*3 for k in range(24)]
def edges(r,pal):
    """colours on both sides of a border between the cells of two palette entries"""
    near=lambda p: min(range(len(pal)),key=lambda n:sum((x-y)**2 for x,y in zip(p,pal[n])))
    while True:
        p=[r.randint(0,255) for _ in range(3)]; k=r.randrange(3)
        lo,hi=0,255; q=lambda v:p[:k]+[v]+p[k+1:]
        a=near(q(lo))
        if near(q(hi))==a: continue
        while hi-lo>1:
            m=(lo+hi)//2
            if near(q(m))==a: lo=m
            else: hi=m
        return [q(lo),q(hi)]
def hexs(r):
    s="".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.choice([3,6,6,6,0,1,2,4,5,7,8])))
    if s and r.random()<.2:
        i=r.randrange(len(s)); s=s[:i]+r.choice("gG z-+#/:@`xé")+s[i+1:]
    return [ord(ch) for ch in r.choice(["","#","#","##","0x"] if r.random()<.2 else ["","#"])+s]
def op(r):
    x=r.random()
    if x<.6: return {"k":"adapt","c":color(r),"cap":r.choice(["none","16","256","256","256","true"])}
    if x<.85: return {"k":"hex","t":hexs(r)}
    return {"k":"rgb","c":color(r)}
def run(c):
    c.explore("Color","Cfgs",depth=256,emit=False)
    fixed=[{"k":"pal","n":n} for n in range(256)]+[{"k":"adapt","c":[v,v,v],"cap":cap} for v in range(256) for cap in ("16","256")]
    cases=[{"cfg":{"n":0},"ops":fixed[i:i+32]} for i in range(0,len(fixed),32)]
    cases+=[{"cfg":{"n":0},"ops":[op(c.rng) for _ in range(40)]} for _ in range(c.pick(1000,20000))]
    for _ in range(c.pick(400,6000)):
        ops=[]
        while len(ops)<40: ops+=[{"k":"adapt","c":v,"cap":"16"} for v in edges(c.rng,PAL16)]
        cases.append({"cfg":{"n":0},"ops":ops})
    for _ in range(c.pick(40,600)):
        ops=[]
        while len(ops)<40: ops+=[{"k":"adapt","c":v,"cap":"256"} for v in edges(c.rng,PAL256)]
        cases.append({"cfg":{"n":0},"ops":ops})
    c.replay_judge("Color","color",cases,label="colours",nondet=True)
