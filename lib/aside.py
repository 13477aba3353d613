"""Operations done aside: on an earlier value of an immutable object, with the result thrown away."""
def sprinkle(r,cases,share=.4,never=()):
    """puts such operations, taken from the case itself, into a share of the cases (never: kinds to leave out)"""
    out=[]
    for c in cases:
        pool=[o for o in c["ops"] if o["k"] not in never]
        if not pool or r.random()>=share: out.append(c); continue
        p=r.choice([.1,.3,.6]); ops=[]
        for o in c["ops"]:
            ops.append(o)
            while r.random()<p: ops.append({"k":"aside","back":r.choice([1,1,1,2,3,6]),"op":r.choice([o]+pool)})
        out.append(dict(c,ops=ops))
    return out
