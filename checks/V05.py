"""V05: multiple selection with limits."""
from lib.aside import sprinkle
from lib import choice
ASSUMPTIONS=["a custom filter function is set before filter text is typed","an option object is listed once","disabled options are not preselected by the program"]
def run(c):
    beh=c.explore("Select","MultiCfgs",depth=c.pick(4,5),cap=c.pick(9000,60000))
    c.replay_judge("Select","multiselect",beh,label="replayed model behaviours")
    c.replay_judge("Select","multiselect",sprinkle(c.rng,[choice.case(c.rng,True) for _ in range(c.pick(5000,60000))]),label="random sessions")
    c.replay_judge("Select","multiselect",sprinkle(c.rng,[choice.case(c.rng,True,[40,90,200]) for _ in range(c.pick(40,400))]),label="long lists",per_shard=20)
