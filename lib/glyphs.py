"""Random text of code points that combine in every way the specification Graphemes.tla knows."""
ASCII=[97,98,99,65,32,46]
MARKS=[769,771]
RI=[127465,127466,127467]
PICT=[128512,128105,128077,128103]
ALL=ASCII*2+[233,1078,945]+[19990,30028,54620]+MARKS+RI+PICT+[8205,65039,127997,10084]
def one(r): return r.choice(ALL)
CLUSTERS=[[97],[98],[32],[233],[101,769],[110,771,769],[19990],[54620],[128512],[128105,8205,128103],[127465,127466],[128077,127997],[10084,65039],[10084],[1078]]
def text(r,n,wild=False):
    k=r.randint(0,n)
    if wild: return [one(r) for _ in range(k)]
    return [x for _ in range(k) for x in r.choice(CLUSTERS)]
