"""Y01: mock and null terminals."""
ASSUMPTIONS=["concurrent schedules are those the Go scheduler produces on 8 cores"]
NOARG="GetCursorPosition SaveCursorPosition RestoreCursorPosition HideCursor ShowCursor Clear ClearLine ClearFromCursor ReadScreenBuffer Size ColorDepth SupportsDirectPositioning SupportsReadback SupportsTrueColor Platform".split()
MODE="EnterAltScreen ExitAltScreen IsInAltScreen IsInRawMode EnterRawMode ExitRawMode".split()
N1="MoveCursorUp MoveCursorDown MoveCursorLeft MoveCursorRight ClearLines".split()
ALL=NOARG+MODE+N1+["SetCursorPosition","SetCursorStyle","Write","WriteAt"]
T=[1097,1034,1092,1010,1040,1041,1044,2001,1202,2005,1032,3001]
def call(r,m=None):
    m=m or r.choice(r.choice([NOARG,MODE,MODE,N1,["SetCursorPosition","SetCursorStyle","Write","WriteAt"]]))
    a=[];t=[]
    if m in N1: a=[r.randint(-3,9)]
    elif m=="SetCursorPosition": a=[r.randint(-2,99),r.randint(-2,99)]
    elif m=="SetCursorStyle": a=[r.randint(0,2)]
    elif m=="Write": t=[r.choice(T) for _ in range(r.randint(0,6))]
    elif m=="WriteAt": a=[r.randint(-2,99),r.randint(-2,99)]; t=[r.choice(T) for _ in range(r.randint(0,6))]
    return {"k":"call","m":m,"a":a,"txt":t}
def seq(r,n=None):
    ops=[]
    for _ in range(n or r.randint(3,30)):
        x=r.random()
        ops.append({"k":"reset"} if x<.03 else {"k":"count","m":r.choice(ALL+["Clear","Write","ClearLine","MoveCursor","Set"])} if x<.2 else call(r))
    return {"cfg":{"null":r.random()<.2},"ops":ops}
def conc(r):
    n=r.choice([2,3,4,8]); k=r.choice([20,60])
    return {"cfg":{"threads":[[call(r) for _ in range(k)] for _ in range(n)]}}
def run(c):
    beh=c.explore("Mock","Cfgs",depth=c.pick(4,5),cap=c.pick(4000,40000))
    c.replay_judge("Mock","mock",beh,label="replayed model behaviours")
    c.replay_judge("Mock","mock",[seq(c.rng) for _ in range(c.pick(1500,15000))],label="random histories")
    c.replay_judge("Mock","mockconc",[conc(c.rng) for _ in range(c.pick(150,2000))],label="concurrent callers",nondet=True)
    c.replay_judge("Mock","mock",[seq(c.rng,c.rng.choice([150,400])) for _ in range(c.pick(16,200))],label="long histories",per_shard=2)
