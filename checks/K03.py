"""K03: clipboard text and rich text survive their encodings."""
ASSUMPTIONS=["rich text is valid UTF-8, not empty and not made of carriage returns only; RTF has no carriage returns"]
PH=["\\b ","\\i0 ","\\ul ","\\cf1 ","{\\colortbl ;\\red1\\green2\\blue3;}","\\line\n","\\u8364?","\\'e9","<b>","</strong>","<em>","<span style=\"color:#00FF00\">","style=\"color:#00FF00\"",
    "&lt;","&amp;","&#34;","&","&copy","<",">","\\","\\\\","{","}","{\\rtf1","\\*","\"","'","  "," ","\n","\n\n","\t","\r\n","\r","?","0","-1","é","世界","😀","👨‍👩‍👧","\u8000","\ufffd","\ufffe","\u00a0","\x7f","\x80","e\u0301","\ue000","\U0010ffff","\x00","\x1b[1m",";","abc","Z"]
def text(r):
    k=r.random()
    if k<.15: t=r.choice(PH)
    elif k<.9: t="".join(r.choice(PH) for _ in range(r.randint(1,7)))
    else: t="".join(chr(r.choice([r.randrange(1,128),r.randrange(128,0xd800),r.randrange(0xe000,0x110000)])) for _ in range(r.randint(1,20)))
    if not t.strip("\r"): t+="a"
    return [ord(x) for x in t]
def col(r):
    if r.random()<.5: return []
    return [ord(x) for x in "#"+"".join(r.choice("0123456789abcdefABCDEF" if r.random()<.5 else "0F") for _ in range(6))]
def rich(r,kind):
    return {"cfg":{"kind":kind},"ops":[{"k":kind,"t":text(r),"b":r.random()<.4,"i":r.random()<.4,"u":r.random()<.4,"col":col(r),"tty":False} for _ in range(10)]}
def osc(r):
    def one():
        n=r.choice([1,1,2,3,4,5,6,r.randint(7,60),r.choice([57,76,77,600,2999])])
        k=r.random()
        b=[r.randrange(256) for _ in range(n)] if k<.7 else [r.choice([0,7,27,92,156,255,10,13,65])for _ in range(n)]
        return {"k":"osc","t":b,"b":False,"i":False,"u":False,"col":[],"tty":r.random()<.3}
    return {"cfg":{"kind":"osc"},"ops":[one() for _ in range(6)]}
def run(c):
    c.tags=["vclip"]
    bools=[False,True]
    # every text of one or two of the phrases, in every combination of styles
    combos=[(b,i,u,k) for b in bools for i in bools for u in bools for k in ([],[ord(x) for x in "#0aF9c0"])]
    T=[p for p in PH if p.strip("\r")]; pairs=[p+q for p in PH for q in PH if (p+q).strip("\r")]
    if not c.thorough: pairs=c.rng.sample(pairs,700)
    for kind in ("html","rtf"):
        ops=[{"k":kind,"t":[ord(x) for x in t],"b":b,"i":i,"u":u,"col":k,"tty":False} for t in T for b,i,u,k in combos]
        ops+=[{"k":kind,"t":[ord(x) for x in t],"b":b,"i":i,"u":u,"col":k,"tty":False} for t in pairs for b,i,u,k in c.rng.sample(combos,c.pick(1,4))]
        c.replay_judge("RichText","richtext",[{"cfg":{"kind":kind},"ops":ops[j:j+20]} for j in range(0,len(ops),20)],label=kind+": markup in every style")
        c.replay_judge("RichText","richtext",[rich(c.rng,kind) for _ in range(c.pick(150,1500))],label=kind+": random texts")
    # every length modulo three with every byte value, then random strings
    ops=[{"k":"osc","t":[v]*n,"b":False,"i":False,"u":False,"col":[],"tty":n==2} for v in range(256) for n in (1,2,3)]
    c.replay_judge("RichText","richtext",[{"cfg":{"kind":"osc"},"ops":ops[j:j+32]} for j in range(0,len(ops),32)],label="osc 52: every byte")
    c.replay_judge("RichText","richtext",[osc(c.rng) for _ in range(c.pick(100,1000))],label="osc 52: random bytes")
    # long texts
    def long(kind):
        n=c.rng.choice([500,5000,20000,90000] if kind=="osc" else [300,1200]); b=[c.rng.randrange(256) for _ in range(n+c.rng.randint(0,2))] if kind=="osc" else sum((text(c.rng) for _ in range(n//20)),[])
        return {"cfg":{"kind":kind},"ops":[{"k":kind,"t":b,"b":c.rng.random()<.5,"i":False,"u":c.rng.random()<.5,"col":col(c.rng),"tty":c.rng.random()<.3}]}
    c.replay_judge("RichText","richtext",[long(k) for k in ("html","rtf","osc") for _ in range(c.pick(8,60))],label="long texts",per_shard=3)
