"""Shared by the checks T01..T05: scripts -> real program -> event log -> spec/Tea.tla."""
from lib import teagen as G
def generate(c,prop,kind,n):
    f={"messages":lambda:G.messages(c.rng,prop),"flood":lambda:G.flood(c.rng,prop),"again":lambda:G.again(c.rng,prop),"slow":lambda:G.slow(c.rng,prop),"commands":lambda:G.commands(c.rng,prop),"ending":lambda:G.ending(c.rng,prop),
       "lifecycle":lambda:G.lifecycle(c.rng,prop,False),"faults":lambda:G.lifecycle(c.rng,prop,True),"concurrent_tty":lambda:G.concurrent_tty(c.rng,prop)}[kind]
    return [f() for _ in range(n)]
def drive(c,cases):
    tr=c.drive("teaslow" if cases[0]["cfg"].get("virt") else "teaprog",cases,timeout=400)
    for t in tr:
        t["script"]=t["cfg"]; t["cfg"]={k:t["cfg"][k] for k in("prop","alt","fail","leaves")}
    return tr
def judge(c,cases,label):
    """A log that is rejected only because this machine was too busy for the waiting times of the driver does not
    repeat: rejected scripts are run again (alone) and only scripts rejected again, by the same kind of rule, count."""
    tr=drive(c,cases)
    if cases[0]["cfg"].get("virt"):   # the clock is virtual: nothing depends on the machine, rejected means rejected
        c.verdict(c.judge("Tea",tr,nondet=True,label=label),tr,label); return
    for k in range(3):
        bad=c.judge("Tea",tr,nondet=True,label=label)
        if not bad or k==2 or len(bad)>60: break
        for i,_ in bad: 
            for _ in range(4):
                t=drive(c,[{"cfg":tr[i]["script"],"ops":[]}])[0]
                tr.append(t)
        idx={i for i,_ in bad}
        hard=[(i,info) for i,info in bad if tr[i]["ops"][max(info["step"],1)-1]["k"] not in("quiet","final")]
        if hard: break
        tr=[t for i,t in enumerate(tr) if i not in idx]
    c.verdict(bad,tr,label)
def run(c,prop,parts,scripts):
    if scripts[0]:
        beh=c.explore("TeaScript","Cfgs",depth=c.pick(5,6),cap=c.pick(*scripts))
        judge(c,[G.from_model(c.rng,prop,b) for b in beh],"replayed model behaviours")
    for k,(q,t) in parts.items():
        judge(c,generate(c,prop,k,c.pick(q,t)),"random: "+k)
