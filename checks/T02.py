"""T02: Batch and Sequence."""
from lib import teacheck
def run(c): teacheck.run(c,"T02",dict(commands=(900,9000),messages=(150,1500),flood=(12,60),ending=(250,2500),again=(150,1500),slow=(300,3000)),scripts=(0,0))
