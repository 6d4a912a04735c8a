"""C05: particle sources (spec Source, SourceGen, SourceTrace)."""
import re
from phys import *


def main(c):
    exe = build_physics(c)
    r, cmds = c.rng, []
    g = [re.match(r'<<"CMD", "(\w+)", "(\w+)", <<(.*?)>>, (\w+), (\w+), (\w+)>>$', p).groups() for p in c.model("SourceGen").tagged("CMD")]
    assert len(g) == 1728
    r.shuffle(g)

    def cmd(t, d, v, pos, tau, ang, n, take=None, offset=True):
        e1 = 10 ** r.uniform(0.5, 4)
        e2 = e1 * r.uniform(0.02, 0.12) if d.lower() == "gaussian" else e1 * r.uniform(1.2, 4)
        return "source %s %s %d %s %s %s %s %s %s %s %d %d" % (
            t, d, n, hx(e1), hx(e2), hx(10 ** r.uniform(-1, 3) if pos else 0), hx(10 ** r.uniform(-1, 3) if tau else 0),
            hx(r.choice([1e-3, 0.02, 0.3]) if ang else 0), hv(rv(r, 10 ** r.uniform(-1, 3)) if offset else [0, 0, 0]), hv(v), r.randrange(2), take or n)
    full = [k for k in g if k[3:] == ("TRUE",) * 3]
    for k in full[:c.n(14, 120)]:
        cmds.append(cmd(k[0], k[1], [float(x) for x in k[2].split(",")], 1, 1, 1, c.n(2000, 6000)))
    for k in full[:c.n(6, 40)]:
        cmds.append(cmd(k[0], k[1], rv(r), 1, 1, 1, c.n(2000, 6000)))
    # exact where nothing is random; small samples of every combination
    for k in g:
        if c.thorough or r.random() < 0.35 or "TRUE" not in k[3:]:
            some = r.randrange(1, 5)
            cmds.append(cmd(k[0], k[1], [float(x) for x in k[2].split(",")], k[3] == "TRUE", k[4] == "TRUE", k[5] == "TRUE", some, r.choice([1, some])))
    # as much as the rest energy, and less
    for k in g[:c.n(40, 300)]:
        w = cmd(k[0], "mono", [float(x) for x in k[2].split(",")], k[3] == "TRUE", k[4] == "TRUE", k[5] == "TRUE", 2).split()
        w[4] = hx(r.choice([1.0, 1.0 + 1e-9, 1.5, 0.999999] if k[0].lower() == "photon" else [1.0, 0.0, 0.5, 1e-300, 0.999999, 1.0 + 1e-9]))
        cmds.append(" ".join(w))
    obs = c.observe_par(exe, cmds)
    # samples too small to be judged as such are judged by their exact part
    for o in obs:
        if o["op"] == "source" and len(o["x"]) < 100:
            o["small"] = True
    cmds = ["deplete %s %d %d" % (t, n, k) for t in ("electron", "Photon", "positron", "muon") for n in (0, 1, 3) for k in (0, 1, 3, 4)]
    obs += c.observe(exe, cmds)
    c.judge("SourceTrace", [o for o in obs if not o.get("small")], "beams and depletion")
    c.judge("SourceTrace", [o for o in obs if o.get("small")], "single primaries")
    c.assumptions = ["statistics of pseudo-random samples are accepted within six standard deviations",
                     "the direction of a beam is not the zero vector"]
