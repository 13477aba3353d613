"""L01: flex containers."""
from checks import L02
TECHNIQUE="TLA+ model of rows and columns of boxes (spec/Flex.tla over spec/LayBox.tla); TLC explores containers to a depth and checks order, gaps, containment and distribution, its behaviours and random ones are replayed and every picture compared"
ASSUMPTIONS=L02.ASSUMPTIONS+["non-negative gaps (rejected by a panic) and container sizes"]
def op(r):
    x=r.random()
    if x<.5: return {"k":"add","c":L02.lines(r),"ops":[L02.op(r) for _ in range(r.choice([0,0,1,2,4]))]}
    if x<.6: return {"k":"gap","n":r.choice([0,1,1,2,5])}
    if x<.75: return {"k":"justify","v":r.choice(["start","end","center","between"])}
    if x<.9: return {"k":"align","v":r.choice(["stretch","start","end","center"])}
    if x<.95: return {"k":"late"}
    return {"k":"size","v":r.choice("wh"),"n":r.choice([-1,0,5,12,30])}
def case(r,L=1):
    row=r.random()<.5
    w=r.choice([0,1,5,10,20,40,80] if row else [0,1,3,8,20]); h=r.choice([0,1,3,6,12] if row else [0,1,4,9,16,30])
    return {"cfg":{"row":row,"pw":w*L,"ph":h*L},"ops":[L02.grow(r,r.choice([1,L]),op(r)) for _ in range(r.randint(1,r.choice([4,9,14])*min(L,4)))]}
def run(c):
    beh=c.explore("Flex","Cfgs",depth=c.pick(4,5),cap=c.pick(3000,30000))
    c.replay_judge("Flex","flex",beh,label="replayed model behaviours",per_shard=600)
    c.replay_judge("Flex","flex",[case(c.rng) for _ in range(c.pick(1300,20000))],label="random containers",per_shard=600)
    c.replay_judge("Flex","flex",[case(c.rng,3) for _ in range(c.pick(24,240))],label="large containers",per_shard=3)
