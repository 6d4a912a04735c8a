"""C17: random sampling (spec Statistics, RandomGen, RandomTrace)."""
import re
from phys import *


def main(c):
    src = [os.path.join(HARN, "random.cpp")] + repo_sources("Tools", "Particles")
    exe = c.build.link("random", src)
    shim = c.build.link("randomshim", [(src[0], ["-DVERIF_SHIM"]), os.path.join(HARN, "rngshim.cpp")] + src[1:], flags=SHIM)
    r = c.rng
    cmds, n = [], c.n(4000, 40000)
    for k in range(c.n(8, 30)):
        s = r.randrange(1, 2 ** 31 - 1)
        a = r.uniform(-50, 50)
        b = a + 10 ** r.uniform(-2, 3)
        cmds.append("sample %d %d uniform %s %s" % (s, n, hx(a), hx(b)))
        cmds.append("sample %d 1 uniforms %s %s %d" % (s, hx(a), hx(b), n))
        cmds.append("sample %d %d normal %s %s" % (s, n, hx(a), hx(10 ** r.uniform(-2, 2))))
        cmds.append("sample %d 1 normals %s %s %d" % (s, hx(a), hx(10 ** r.uniform(-2, 2)), n))
        cmds.append("sample %d %d poisson %s" % (s, n, hx(r.choice([r.uniform(0.1, 4), r.uniform(4, 30)]))))
        m = r.randrange(1, 7)
        w = [r.choice([0, 1, r.uniform(0, 10), r.random()]) for _ in range(m)]
        w[r.randrange(m)] = r.uniform(0.5, 5)
        cmds.append("sample %d %d discrete %d %s" % (s, n, m, hv(w)))
        cmds.append("sample %d %d depth" % (s, n))
    g = [p for p in c.model("RandomGen").tagged("CMD")]
    hist = []
    for p in g:
        ev = re.findall(r'<<"(seed|call)", (?:"([^"]*)"|(\d+))>>', p)
        hist.append("; ".join("seed %s " % s if k == "seed" else " %s " % t for k, t, s in ev))
    r.shuffle(hist)
    # two model behaviours after each other, so that streams with a common past occur
    for i in range(0, min(len(hist) - 1, c.n(3000, 12000)), 2):
        cmds.append("history " + "; ".join([hist[i], hist[i + 1], "seed 1 ", hist[i].split(";", 1)[1]]).replace("  ", " "))
    cmds += ["threads 6 40"] * 3
    obs = c.observe_par(exe, cmds)
    # unseeded runs differ from each other
    streams = []
    for _ in range(3):
        o = c.observe(exe, ["threads 1 40"])
        streams += o[0]["s"] if o[0]["op"] == "streams" else [[]]
        if o[0]["op"] != "streams":
            obs += o
    obs.append({"op": "streams", "s": streams})
    # extreme draws
    cmds, top = [], 1 - 2 ** -53
    for _ in range(c.n(200, 2000)):
        m = r.randrange(1, 7)
        w = [r.choice([0, 1, r.random(), r.uniform(0, 1e6), 1 + 2 ** -51]) for _ in range(m)]
        w[r.randrange(m)] = r.choice([1 + 2 ** -51, r.uniform(0.5, 5)])
        us = [0.0, top, 0.5, 2 ** -53] + [min(sum(w[:i]) / sum(w), top) for i in range(m)]
        cmds.append("edge %d %s %d %s" % (len(us), hv(us), m, hv(w)))
        a = r.uniform(-5, 5)
        cmds.append("range %s %s %s" % (hx(a), hx(a + 10 ** r.uniform(-2, 2)), hv([0.0, top, 0.5])))
    cmds.append("depths " + hv([0.0, top, 0.5, 1e-300, 2 ** -53]))
    obs += c.observe(shim, cmds)
    c.judge("RandomTrace", obs, "samples, seeds and extreme draws")
    c.assumptions = ["pseudo-random samples are accepted within six standard deviations"]
