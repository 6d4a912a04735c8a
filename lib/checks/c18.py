"""C18: the unit system (spec Units, UnitsGen, UnitsTrace)."""
import re
from vf import *


def main(c):
    exe = c.build.link("units", [os.path.join(HARN, "units.cpp")] + repo_sources("Tools"))
    names = [re.match(r'<<"CMD", "(.*)">>$', p).group(1) for p in c.model("UnitsGen").tagged("CMD")]
    for _ in range(c.n(60, 1500)):
        names.append("".join(c.rng.choice("SIsi.cgsGaussMKS") for _ in range(c.rng.randrange(1, 9))))
    # the harness cuts blanks at the start of a line; other blanks are kept
    cmds = ["units " + (x or "<empty>") for x in dict.fromkeys(names) if not x.startswith(" ")] + ["units SI", "units si"]
    obs = c.observe_par(exe, cmds)
    obs += c.observe(exe, ["constants"])
    c.judge("UnitsTrace", obs, "unit systems")
