"""V07: multi-line text editor."""
from lib.aside import sprinkle
from lib import glyphs
SEPS=[32,9,46,44,59,58,33,63,40,41,91,93,123,125,47,92,124,45,95,61,43,42,38,37,36,35,64,126,96,39,34,60,62]
LETTERS=[97,98,99,66,48,233,19990,128512,769,94]
def letter(r): return r.choice(LETTERS) if r.random()<.7 else r.choice(SEPS)
def text(r,n): return [10 if r.random()<.2 else 32 if r.random()<.2 else letter(r) for _ in range(r.randint(0,n))]
def case(r,L=1):
    """L: how many times larger than usual"""
    ops=[]; K=lambda *x:{"k":"key","key":r.choice(x)}
    if r.random()<.6: ops.append({"k":"set","t":text(r,40*L)})
    if r.random()<.3: ops.append(r.choice([{"k":"placeholder","t":text(r,5)},{"k":"nums","on":True},{"k":"wrap","on":True}]))
    if r.random()<.25: ops.append({"k":"goto","r":r.randint(-1,5*L),"c":r.randint(-1,9)})
    if r.random()<.3: ops.append({"k":"valid","v":r.choice(["never","prompt","prompt","rows","even","row"])})
    for _ in range(r.randint(4*L,35 if L==1 else 140)):
        x=r.random()
        if x<.22: ops.append({"k":"key","key":"rune","cp":letter(r)})
        elif x<.30: ops.append(K("space","enter","enter","ctrl+m"))
        elif x<.54: ops.append(K("left","right","up","down","home","end","ctrl+b","ctrl+f","ctrl+p","ctrl+n","ctrl+N","ctrl+a","ctrl+A","ctrl+e","alt+<","alt+>","alt+f","alt+b","alt+F","alt+B"))
        elif x<.64: ops.append(K("backspace","delete","ctrl+h","ctrl+d","ctrl+H"))
        elif x<.78: ops.append(K("ctrl+k","ctrl+k","ctrl+K","ctrl+u","ctrl+U","ctrl+w","alt+backspace","alt+d","alt+D"))
        elif x<.85: ops.append(K("ctrl+y","ctrl+y","ctrl+Y"))
        elif x<.88: ops.append({"k":"goto","r":r.randint(-2,9*L),"c":r.randint(-2,12)})
        elif x<.90: ops.append(r.choice([{"k":"set","t":text(r,30*L)},{"k":"end"}]))
        elif x<.93: ops.append({"k":"height","n":r.choice([-3,0,1,1,2,3,4,10,10*L])})
        elif x<.96: ops.append(r.choice([{"k":"maxl","n":r.randint(0,6*L)},{"k":"maxc","n":r.randint(0,30*L)},{"k":"ro","on":r.random()<.4},{"k":"nums","on":r.random()<.5},{"k":"show","on":r.random()<.5},{"k":"width","n":r.randint(-1,9)}]))
        else: ops.append(r.choice([{"k":"other","m":r.choice(["size","mouse","nil","x"])},K("tab","esc","ctrl+x","alt+x","f1","pgup","ctrl+z"),{"k":"vi","on":r.random()<.3},{"k":"valid","v":"any"}]))
    return {"cfg":{"h":r.choice([1,2,3,4,10]),"maxl":r.choice([0,0,0,1*L,3*L,5*L]),"maxc":r.choice([0,0,0,5*L,20*L,40*L])},"ops":ops}
def run(c):
    beh=c.explore("TextArea","Cfgs",depth=c.pick(4,5),cap=c.pick(9000,60000))
    c.replay_judge("TextArea","area",beh,label="replayed model behaviours")
    c.replay_judge("TextArea","area",sprinkle(c.rng,[case(c.rng) for _ in range(c.pick(4000,60000))]),label="random sessions",per_shard=1000)
    c.replay_judge("TextArea","area",sprinkle(c.rng,[case(c.rng,12) for _ in range(c.pick(40,400))]),label="long texts and sessions",per_shard=10)
