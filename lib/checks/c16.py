"""C16: table lookups and quadrature (spec Numerics, NumericsGen, NumericsTrace)."""
import os, re
from vf import *

def main(c):
    exe = c.build.link("numerics", [os.path.join(HARN, "numerics.cpp")] + repo_sources("Tools"))
    g = c.model("NumericsGen")
    cmds = []
    qs = [k / 2 for k in range(-3, 12)]
    for p in g.tagged("CMD"):
        xs, ys = re.match(r'<<"CMD", <<<<(.*)>>, <<(.*)>>>>>>', p).groups()
        xs, ys = [[float(v) for v in s.split(",")] for s in (xs, ys)]
        cmds.append("interp %d %s %s %s" % (len(xs), hv(xs), hv(ys), hv(qs)))
        if ys == sorted(ys):
            cmds.append("index %d %s %s" % (len(xs), hv(xs), hv(qs)))
            for q in qs:
                cmds.append("closest %d %s %s" % (len(xs), hv(xs), hx(q)))
    r = c.rng
    sizes = [2, 3, 4, 5, 7, 10, 33, 100, 101, 500, 1000, 4097] + ([20000, 65537] if c.thorough else [])
    for rep in range(c.n(3, 20)):
        for n in sizes:
            if n > 5000 and rep > 1:
                continue
            kind = r.choice(["uniform", "random", "log", "neg", "tiny", "huge"])
            if kind == "uniform":
                x0, d = r.uniform(-5, 5), r.uniform(0.01, 2)
                xs = [x0 + i * d for i in range(n)]
            elif kind == "log":
                xs = [10 ** (-6 + 9 * i / n) for i in range(n)]
            else:
                s = {"tiny": 1e-9, "huge": 1e9}.get(kind, 1.0)
                v = -s * n if kind == "neg" else r.uniform(-1, 1) * s
                xs = []
                for i in range(n):
                    v += s * r.uniform(1e-3, 1) ** 2
                    xs.append(v)
            ys = [r.choice([r.gauss(0, 1), r.gauss(0, 1) * 1e6, 0.0, 1.0]) for _ in xs]
            q = [xs[0], xs[-1], xs[n // 2], xs[-2], xs[1]]
            w = xs[-1] - xs[0]
            q += [xs[0] - w * r.random(), xs[-1] + w * r.random(), xs[0] - w * 1e-3, xs[-1] + 1e-3 * w, xs[-1] + 3 * w, xs[0] - 2 * w]
            for _ in range(20):
                i = r.randrange(n - 1)
                q.append(xs[i] + r.random() * (xs[i + 1] - xs[i]))
            q += [(xs[0] + xs[1]) / 2, (xs[-1] + xs[-2]) / 2, xs[-2] + 0.9 * (xs[-1] - xs[-2]), xs[-2] + 0.2 * (xs[-1] - xs[-2])]
            cmds.append("interp %d %s %s %s" % (n, hv(xs), hv(ys), hv(q)))
            cmds.append("index %d %s %s" % (n, hv(xs), hv(q)))
            for qq in q:
                cmds.append("closest %d %s %s" % (n, hv(xs), hx(qq)))
    for n in [3, 5, 7, 9, 11, 21, 101, 501] + ([2001] if c.thorough else []):
        for _ in range(c.n(6, 40)):
            x0, d = r.uniform(-5, 5), r.uniform(0.01, 2)
            xs = [x0 + i * d for i in range(n)]
            k = r.randrange(5)
            ys = [x ** k for x in xs] if k < 4 else [r.gauss(0, 3) for _ in xs]
            cmds.append("simpson %d %s %s" % (n, hv(xs), hv(ys)))
    c.judge("NumericsTrace", c.observe(exe, cmds), "table lookup")
    c.assumptions = ["axes are strictly increasing; quadrature on an odd number of equally spaced points",
                     "a query exactly half way between two samples may go to either"]
