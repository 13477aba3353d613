"""C02: colour capabilities follow the documented environment precedence."""
TAGS=["vcore"]
V={"NO_COLOR":["","","","","1","0","x"],"FORCE_COLOR":["","","","","0","1","2","3","true","false","4","x"],
   "COLORTERM":["","","truecolor","24bit","TrueColor","TRUECOLOR","24Bit","yes","256","truecolor2"],
   "TERM_PROGRAM":["","","iTerm.app","vscode","Hyper","WarpTerminal","Apple_Terminal","tmux","iterm.app","VSCode"],
   "TERM":["","dumb","xterm","xterm-256color","xterm-color","screen-256color","vt100","linux","dumb-256color","color","256colo","xterm-kitty","dumber"],
   "WT_SESSION":["","","x"]}
def op(r): return {"k":"detect","plat":r.choice(["real","real","linux","darwin","windows","freebsd"]),"env":{k:r.choice(v) for k,v in V.items()}}
def run(c):
    c.tags=TAGS
    beh=c.explore("Core","EnvCfgs",ops="EnvOps",depth=1,cap=c.pick(4000,20000),label="every combination of the usual values")
    c.replay_judge("Core","core",beh,label="replayed model behaviours")
    c.replay_judge("Core","core",[{"cfg":{"n":0},"ops":[op(c.rng) for _ in range(20)]} for _ in range(c.pick(400,6000))],label="random surroundings")
