"""V03: tables."""
from lib.aside import sprinkle
ASSUMPTIONS=["cell renderers return plain text","a column holds values of comparable kinds (text, numbers or booleans)"]
A=[1097,1098,1065,1120,1203,1209,1211,2001,2003,2004,1032,1201,1206,1048,1049]
def text(r,n,lo=0): return [r.choice(A) for _ in range(r.randint(lo,n))]
def asc(s): return [1000+ord(x) for x in s]
def num(n): return asc(str(n//2) if n%2==0 else str(n/2))
def column(r):
    return {"title":text(r,6),"w":r.choice([-1,0,1,2,3,4,5,6,8,12]),"al":r.randint(0,2),"sort":r.random()<.8,"rend":r.random()<.15,"_":r.choice(["str","str","strc","int","num","float","bool","int32","bigi","bigl","bigm","ubig","wide","dur"])}
# numbers at the edges of their types: go literal, exact value, and how they are shown
BIG={"big":[-2**63,-2**63+1,-2**62,-2**53-1,-2**53,-2**31-1,-2**31,-1,0,1,2**31-1,2**31,2**53,2**53+1,2**53+2,2**62,2**63-2,2**63-1],
     "ubig":[0,1,2**31,2**32,2**53,2**53+1,2**63-1,2**63,2**64-2,2**64-1]}
WIDE=[("-inf","-Inf"),("-1e300","-1e+300"),("-2.5","-2.5"),("-1e-9","-1e-09"),("0","0"),("5e-324","5e-324"),("1e-9","1e-09"),("0.25","0.25"),("0.75","0.75"),("1e300","1e+300"),("1.5e300","1.5e+300"),("inf","+Inf")]
DUR=[(-1,"-1ns"),(0,"0s"),(1,"1ns"),(999,"999ns"),(1000000,"1ms"),(1500000000,"1.5s"),(2000000000,"2s"),(10000000000,"10s"),(60000000000,"1m0s"),(3600000000000,"1h0m0s"),(360000000000000,"100h0m0s")]
def edge(r,kind):
    if kind=="wide": i=r.randrange(len(WIDE)); return {"t":"float","lit":WIDE[i][0],"n":i,"s":asc(WIDE[i][1])}
    if kind=="dur": i=r.randrange(len(DUR)); return {"t":"dur","lit":str(DUR[i][0]),"n":i,"s":asc(DUR[i][1])}
    b=BIG["ubig" if kind=="ubig" else "big"]; i=r.randrange(len(b)); v=str(b[i])
    return {"t":{"ubig":"uint64","bigi":"int","bigl":"int64","bigm":r.choice(["int","int64"])}[kind],"lit":v,"n":i,"s":asc(v)}
def cell(r,kind):
    if r.random()<.12: return {"t":"nil","n":0,"s":[]}
    if kind=="str": return {"t":"str","n":0,"s":[1010 if r.random()<.04 else 1009 if r.random()<.02 else a for a in text(r,r.choice([1,2,3,9]))]}
    if kind=="strc": return {"t":"str","n":0,"s":asc(r.choice(["a","b","ab","B","10","9"]))}
    if kind in("bigi","bigl","bigm","ubig","wide","dur"): return edge(r,kind)
    if kind=="bool": n=r.randint(0,1); return {"t":"bool","n":n,"s":asc(["false","true"][n])}
    t=r.choice(["int","int64","int32","uint8","float","float32"]) if kind=="num" else kind
    n=r.choice([0,1,2,9,10,11,20,100]) if t=="uint8" else r.choice([-100,-9,-1,0,1,2,9,10,10,11,99,1000])
    n*=2
    if t.startswith("float"): n+=r.choice([0,1])
    return {"t":t,"n":n,"s":num(n)}
def case(r,sizes=[0,1,2,4,6,9,14]):
    cols=[column(r) for _ in range(r.choice([1,2,2,3,3,4]))]
    kinds=[c.pop("_") for c in cols]
    ids=[0]
    def rows(n):
        q=[]
        for _ in range(n):
            ids[0]+=1; q.append({"id":ids[0],"c":[cell(r,k) for k in kinds]})
        return q
    ops=[{"k":"rows","rows":rows(r.choice(sizes))}]
    if r.random()<.7: ops.append({"k":"height","n":r.choice([-1,0,1,2,3,4,5,20])})
    if r.random()<.3: ops.append({"k":"header","on":False})
    for _ in range(r.randint(3,25)):
        x=r.random()
        if x<.5: ops.append({"k":"key","key":r.choice(["up","down","down","down","home","end","pgup","pgdown"])})
        elif x<.58: ops.append({"k":"key","key":"rune","r":r.choice([1107,1106,1103,1071,1099,1120,1115])})
        elif x<.8: ops.append({"k":"sort","c":r.randint(0,len(cols)+1)})
        elif x<.83: ops.append({"k":"clear"})
        elif x<.88: ops.append({"k":"height","n":r.choice([-3,0,1,2,3,4,7])})
        elif x<.91: ops.append({"k":"header","on":r.random()<.5})
        elif x<.95: ops.append({"k":"rows","rows":rows(r.choice([0,1,3,7]))})
        else: ops.append(r.choice([{"k":"other","m":r.choice(["size","mouse","nil","x"])},{"k":"key","key":r.choice(["enter","space","left","tab","ctrl+c"])}]))
    return {"cfg":{"cols":cols},"ops":ops}
def run(c):
    beh=c.explore("Table","Cfgs",depth=c.pick(4,6),cap=c.pick(5000,50000))
    c.replay_judge("Table","table",beh,label="replayed model behaviours",per_shard=1000)
    c.replay_judge("Table","table",sprinkle(c.rng,[case(c.rng) for _ in range(c.pick(2500,40000))]),label="random sessions",per_shard=1000)
    c.replay_judge("Table","table",sprinkle(c.rng,[case(c.rng,[40,90,200]) for _ in range(c.pick(40,400))]),label="long tables",per_shard=20)
