"""S02: colours and decorations of rendered boxes."""
from checks import S01
TECHNIQUE=S01.TECHNIQUE+"; output is read as a terminal reads it, giving the attributes of every cell"
ASSUMPTIONS=S01.ASSUMPTIONS
def run(c): S01.run(c,"S02")
