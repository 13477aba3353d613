"""V04: single selection."""
from lib.aside import sprinkle
from lib import choice
ASSUMPTIONS=["a custom filter function is set before filter text is typed","an option object is listed once"]
def run(c):
    beh=c.explore("Select","Cfgs",depth=c.pick(5,6),cap=c.pick(9000,60000))
    c.replay_judge("Select","select",beh,label="replayed model behaviours")
    c.replay_judge("Select","select",sprinkle(c.rng,[choice.case(c.rng,False) for _ in range(c.pick(5000,60000))]),label="random sessions")
    c.replay_judge("Select","select",sprinkle(c.rng,[choice.case(c.rng,False,[40,90,200]) for _ in range(c.pick(40,400))]),label="long lists",per_shard=20)
