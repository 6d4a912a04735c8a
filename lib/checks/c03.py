"""C03: continuous photon emission (spec Processes, ProcessesGen, ProcessesTrace)."""
from phys import *


def main(c):
    exe = build_physics(c)
    interactions(c, exe, lambda r, t: emission_cmd(r, r.choice(["cont", "classic"]), t), ("cont", "classic"), c.n(300, 3000), c.n(250, 3000))
