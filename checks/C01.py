"""C01: display width is additive over characters and matches terminal cell counts."""
TAGS=["vcore"]
R=lambda a,b: (a,b)
ONE=[R(33,126),R(945,961),R(963,969),R(1040,1103),R(9472,9547),R(1488,1514),R(1569,1594),R(3585,3630),R(4304,4336),R(65382,65437)]
AMB=[167,176,177,189,215,233,252,228,231,241]
WIDE=[R(19968,40959),R(13312,19903),R(44032,55203),R(12353,12438),R(12449,12538),R(65281,65376),R(12289,12291),R(131072,173782),R(63744,64109)]
MARK=[R(768,879),R(1155,1159),R(1425,1455),R(3636,3642),R(8400,8412),R(65056,65071)]
PICT=[R(127744,127776),R(128512,128591),R(128640,128660),R(129296,129338)]
PICTS=[128104,128105,128102,128103,128077,128075,128293,127881,127987,127752,128187,10084,9749,9889,11088]
CTL=[*range(0,32),*range(127,160),173,8203,65279]
def of(r,rs): a,b=r.choice(rs); return r.choice([a,b,r.randint(a,b),r.randint(a,b)])
def pict(r): return of(r,PICT) if r.random()<.5 else r.choice(PICTS)
def marks(r): return [of(r,MARK) for _ in range(r.choice([0]*6+[1,1,2,4]))]
def emoji(r):
    c=[pict(r)]
    k=r.random()
    if k<.25: c.append(r.randint(127995,127999))
    elif k<.45: c.append(65039)
    c+=marks(r)
    return c
def cluster(r):
    k=r.random()
    if k<.25: return [of(r,ONE) if r.random()<.9 else r.choice(AMB)]+marks(r)
    if k<.35: return [32]
    if k<.5: return [of(r,WIDE)]+marks(r)
    if k<.7:
        c=emoji(r)
        while r.random()<.35: c=c+[8205]+emoji(r)
        return c
    if k<.75: return [pict(r),65038]
    if k<.85: return [r.randint(127462,127487) for _ in range(r.choice([1,2,2,2]))]
    if k<.9: return [r.choice([35,42,48,49,57]),65039,8419]
    if k<.97: return [r.choice(CTL)]
    return [of(r,MARK)]
def case(r,n):
    return {"cfg":{"text":[]},"ops":[{"k":"add","cps":[x for _ in range(r.choice([1,1,2])) for x in cluster(r)]} for _ in range(r.randint(1,n))]}
def ascii(r):
    """short and long plain text: there are fast paths for it"""
    return {"cfg":{"text":[]},"ops":[{"k":"add","cps":[r.choice([*range(32,127)]*3+[*range(32)]+[127]) for _ in range(r.choice([1,3,7,8,9,15,16,17,25]))]+([] if r.random()<.8 else cluster(r))} for _ in range(r.randint(1,3))]}
KNOWN={"tag-flag":[127988,917607,917602,917605,917614,917607,917631],"kana-mark":[12363,12441],"conjoining-hangul":[4352,4449]}
def run(c):
    c.tags=TAGS
    beh=c.explore("Width","Cfgs",depth=c.pick(3,4),cap=c.pick(4000,40000),label="texts of code points which combine")
    c.replay_judge("Width","width",beh,label="replayed model behaviours")
    c.replay_judge("Width","width",[case(c.rng,8) for _ in range(c.pick(2500,30000))],label="random text")
    c.replay_judge("Width","width",[ascii(c.rng) for _ in range(c.pick(300,3000))],label="plain text")
    c.replay_judge("Width","width",[{"scenario":k,"cfg":{"text":[]},"ops":[{"k":"add","cps":q}]} for k,q in KNOWN.items()],label="characters the width tables do not know")
