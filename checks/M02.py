"""M02: drags start once past the threshold and end exactly once."""
from checks.M01 import session
def run(c):
    beh=c.explore("Mouse","DragCfgs",ops="DragOps",depth=c.pick(3,4),cap=c.pick(6000,60000),label="presses, motions and releases")
    c.replay_judge("Mouse","mouse",beh,label="replayed model behaviours")
    c.replay_judge("Mouse","mouse",[session(c.rng,True) for _ in range(c.pick(3000,40000))],label="random dragging")
