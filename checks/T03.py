"""T03: quit and stop always end the program."""
from lib import teacheck
def run(c): teacheck.run(c,"T03",dict(ending=(900,9000),lifecycle=(150,1500),faults=(100,1500),concurrent_tty=(100,1000),flood=(8,40),slow=(400,4000)),scripts=(600,5000))
