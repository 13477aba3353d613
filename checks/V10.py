"""V10: progress bars and spinners."""
from lib.aside import sprinkle
ASSUMPTIONS=["fill characters occupy one cell"]
A=[1097,1098,1202,2001,2004,1032,1203,1035,1043]
def text(r,n,lo=0): return [r.choice(A) for _ in range(r.randint(lo,n))]
# the documented frames of some named spinners (other names: dots)
def fr(s): return [[9000+ord(x) if ord(x)>127 else 1000+ord(x)] for x in s]
NAMED={"dots":fr("⠋⠙⠹⠸⠼⠴⠦⠧⠇⠏"),"line":fr("|/-\\"),"arrow":fr("←↖↑↗→↘↓↙"),"circle":fr("◐◓◑◒"),"bounce":fr("⠁⠂⠄⡀⢀⠠⠐⠈"),"dot-pulse":fr("⣾⣽⣻⢿⡿⣟⣯⣷"),
 "box-bounce":fr("▖▘▝▗"),"no such style":fr("⠋⠙⠹⠸⠼⠴⠦⠧⠇⠏")}
def bar(r):
    ops=[]
    for _ in range(r.randint(1,20)):
        x=r.random()
        if x<.75: ops.append({"k":r.choice(["set","inc","dec","inc","dec"]),"n":r.choice([0,1,1,3,7,10,25,50,99,100,101,-1,-30,-1000,1000]),"big":r.choice([0]*12+[1,-1])})
        elif x<.80: ops.append({"k":"fill","a":r.choice([1035,1203,1061])})
        elif x<.85: ops.append({"k":"empty","a":r.choice([1046,1203,1032])})
        elif x<.92: ops.append({"k":"show","on":r.random()<.7})
        elif x<.96: ops.append({"k":"label","t":text(r,r.choice([6]*9+[120]))})
        else: ops.append({"k":"other","m":r.choice(["size","mouse","nil","x"])})
    return {"cfg":{"kind":"bar","w":r.choice([-3,0,1,2,3,5,7,10,13,33,99,100,101,200,257,1000]),"pct":r.choice([0,0,-1,50,100,150,r.randint(1,99)])},"ops":ops}
def spin(r):
    ops=[r.choice([{"k":"tick"}]*8+[{"k":"label","t":text(r,5)},{"k":"other","m":r.choice(["size","mouse","nil","x"])}]) for _ in range(r.randint(1,r.choice([40]*9+[200])))]
    if r.random()<.5:
        n=r.choice(list(NAMED)); return {"cfg":{"kind":"spin","name":n,"fps":0,"frames":NAMED[n]},"ops":ops}
    return {"cfg":{"kind":"spin","name":"","fps":r.choice([-1,0,1,10,100]),"frames":[text(r,3,1) for _ in range(r.randint(0,r.choice([6]*9+[60])))]},"ops":ops}
def run(c):
    # every percentage at many widths
    allp=[{"cfg":{"kind":"bar","w":w,"pct":0},"ops":[{"k":"set","n":p,"big":0} for p in range(0,101)]} for w in list(range(1,c.pick(41,121)))]
    c.replay_judge("Progress","progress",allp,label="all percentages, widths 1..")
    beh=c.explore("Progress","Cfgs",depth=c.pick(3,4),cap=c.pick(8000,60000))
    c.replay_judge("Progress","progress",beh,label="replayed model behaviours")
    c.replay_judge("Progress","progress",sprinkle(c.rng,[bar(c.rng) for _ in range(c.pick(2000,20000))]),label="random bars")
    c.replay_judge("Progress","progress",sprinkle(c.rng,[spin(c.rng) for _ in range(c.pick(600,6000))]),label="random spinners")
