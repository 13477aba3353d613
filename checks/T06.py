"""T06: terminal input to key messages."""
ASSUMPTIONS=["the bytes of one key follow each other within the reader's waiting time (50 ms); after a lone Esc key nothing arrives for longer",
 "input is valid UTF-8; modifiers other than Alt+character and Ctrl+letter are outside the documented key set"]
CSI=["A","B","C","D","H","F"]+[x+"~" for x in "1 2 3 4 5 6 15 17 18 19 20 21 23 24".split()]
JUNK=["[1;5C","[<0;123;45M","[Z","[1;2P","[999~","[200~","[?1049h","[38;2;255;255;255;48;2;0;0;0m","[!p","Oq","OA","[I","[11;22;33;44;55;66;77;88u"]
def strange(r):
    """a sequence nobody documented: any parameters, intermediates and final byte; or one that something else interrupts"""
    b=[27,91]+[r.randint(0x30,0x3f) for _ in range(r.choice([0,1,2,6,30]))]+[r.randint(0x20,0x2f) for _ in range(r.choice([0,0,1,2]))]
    if r.random()<.75: return b+[r.choice([0x40,0x7e,0x5a,0x4d,r.randint(0x40,0x7e)])]
    return b+r.choice([[13],[27,91,65],[27],[9],[3],[127],[27,79,80],list("é".encode()),list("世".encode()),list("😀".encode()),[27,120]])
def key(r):
    x=r.random()
    if x<.35: return [r.randint(33,126)]
    if x<.45: return [r.choice([1,2,3,8,9,10,12,13,26,27+100,32,32,127])]
    if x<.6: return list(chr(r.choice([0xa1,0xe9,0x7ff,0x800,0x416,0x20ac,0x4e16,0xfffd,0xd7ff,0xffff-2,0x10000,0x1f600,0x10fffd,r.randint(0xa0,0xd7ff)])).encode())
    if x<.8: return [27]+[ord(ch) for ch in "["+r.choice(CSI)]
    if x<.86: return [27,79,r.randint(80,83)]
    if x<.9: return [27]+[ord(ch) for ch in r.choice(JUNK)]
    if x<.93: return strange(r)
    if x<.95: return [27,r.choice([32,127,9,13,1,3,26,8,r.randint(1,26)])]     # Esc and a key that has no Alt form
    return [27]+list(r.choice(["a","z","1","~","ж","世","]","Q"]).encode())
def chunks(r,b,mode):
    out=[]; i=0
    while i<len(b):
        n={0:len(b),1:1,2:r.randint(1,3),3:r.choice([1,2,255,256,257,r.randint(1,600)]),4:r.choice([3,7,50])}[mode]
        out.append({"k":"chunk","b":b[i:i+n],"pause":False}); i+=n
    return out
def case(r,n,esc):
    ops=[]; b=[]; mode=r.randint(0,4)
    if len(b)==0 and mode==1 and n>300: mode=3
    for _ in range(n):
        if esc and r.random()<.2:
            b+=r.choice([[27],[27],[27],[27,91],[27,79],[27,91,49],[27,91,49,59,53],[27,27]]); ops+=chunks(r,b,mode); ops[-1]["pause"]=True; b=[]
        else: b+=key(r)
    return {"cfg":{"slow":0},"ops":ops+chunks(r,b,mode)}
def split(r,b):
    m=r.randint(0,2)
    if m==0: return b
    out=[]; run=[]
    for o in b["ops"]:
        run+=o["b"]
        if o["pause"]: out+=chunks(r,run,m); out[-1]["pause"]=True; run=[]
    return {"cfg":b["cfg"],"ops":out+chunks(r,run,m)}
TYPES=["rune","enter","backspace","tab","esc","space","up","down","left","right","home","end","pgup","pgdown","delete","insert","ctrlc"]+["f%d"%i for i in range(1,13)]
def names(r):
    """messages an application builds or compares with"""
    ops=[]
    for t in r.sample(TYPES,len(TYPES)):
        ops.append({"k":"keyname","t":t,"r":r.choice([97,65,43,32,233,0x4e16,0x1f600]) if t=="rune" else 0,"alt":r.random()<.4,"ctrl":r.random()<.4,"shift":r.random()<.4})
    for b in ["none","left","middle","right","wheelup","wheeldown"]:
        for a in ["press","release"] if b[:2]=="wh" else ["press","release","motion"]:
            ops.append({"k":"mousename","btn":b,"act":a,"x":r.choice([0,1,9,10,99,223,5000]),"y":r.choice([0,1,10,300]),"shift":r.random()<.3})
    for _ in range(4): ops.append({"k":"sizename","w":r.choice([0,1,80,132,-1,65535]),"h":r.choice([0,1,24,-3,9999])})
    return {"cfg":{"slow":0},"ops":ops}
def judge(c,cases,label,comp="keys"):
    """a mismatch that depends on timing alone (a read delayed beyond the escape timeout on a busy machine) does not repeat"""
    tr=c.drive(comp,cases)
    for k in range(3):
        bad=c.judge("Keys",tr,nondet=True,label=label)
        if not bad or k==2: break
        idx=[i for i,_ in bad]
        if len(idx)>200: break
        for i in idx: tr[i]=c.drive(comp,[cases[i]])[0]
    c.verdict(bad,tr,label)
def run(c):
    beh=c.explore("Keys","Cfgs",depth=c.pick(2,3),cap=c.pick(3000,15000))
    judge(c,[split(c.rng,b) for b in beh],"replayed model behaviours")
    judge(c,[case(c.rng,c.rng.choice([1,3,10,40]),False) for _ in range(c.pick(500,4000))],"random key streams")
    judge(c,[case(c.rng,c.rng.choice([200,600,1500]),False) for _ in range(c.pick(60,500))],"long key streams")
    judge(c,[case(c.rng,c.rng.choice([5000,12000]),False) for _ in range(c.pick(3,20))],"pasted texts")
    judge(c,[case(c.rng,c.rng.choice([2,5,8]),True) for _ in range(c.pick(120,1000))],"streams with lone Esc keys")
    judge(c,[names(c.rng) for _ in range(c.pick(40,300))],"the text of messages","msgnames")
