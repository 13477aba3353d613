"""T05: Suspend, Resume and ExecProcess."""
from lib import teacheck
def run(c): teacheck.run(c,"T05",dict(lifecycle=(500,5000),faults=(300,3000),concurrent_tty=(300,3000)),scripts=(800,6000))
