"""T01: every message handled exactly once, one at a time, in order."""
from lib import teacheck
def run(c): teacheck.run(c,"T01",dict(messages=(700,8000),flood=(12,60),commands=(150,1500),ending=(150,1500),lifecycle=(100,800),slow=(300,3000)),scripts=(300,3000))
