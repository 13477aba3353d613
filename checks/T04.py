"""T04: terminal modes as found when the program ends."""
from lib import teacheck
def run(c): teacheck.run(c,"T04",dict(faults=(700,8000),lifecycle=(200,2000),ending=(200,2000),concurrent_tty=(80,800)),scripts=(800,6000))
