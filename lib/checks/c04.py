"""C04: pair creation (spec Processes, ProcessesGen, ProcessesTrace)."""
from phys import *


def main(c):
    exe = build_physics(c)
    interactions(c, exe, pair_cmd, ("pair",), c.n(300, 3000), c.n(250, 3000))
