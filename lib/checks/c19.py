"""C19: vectors, matrices, rotations (spec Algebra, AlgebraGen, AlgebraTrace)."""
import os, re
from vf import *


def rvec(r, s=None):
    s = s if s is not None else r.choice([1, 1, 1, 1e-9, 1e9, 1e3, 1e-3])
    return [r.gauss(0, 1) * s for _ in range(3)]


def unit(v):
    m = sum(x * x for x in v) ** 0.5
    return [x / m for x in v]


def main(c):
    exe = c.build.link("algebra", [os.path.join(HARN, "algebra.cpp")])
    g = c.model("AlgebraGen")
    r, cmds = c.rng, []
    for p in g.tagged("CMD"):
        a, b = [[float(x) for x in s.split(",")] for s in re.match(r'<<"CMD", <<(.*)>>, <<(.*)>>>>', p).groups()]
        cmds.append("rot %s %s %s" % (hv(a), hv(b), hv(rvec(r, 1))))
        cmds.append("rot %s %s %s" % (hv([x * r.choice([0.37, 1e-8, 1e8]) for x in a]), hv(b), hv([1, 2, 3])))
        cmds.append("vec %s %s %s" % (hv(a), hv(b), hx(r.choice([-2, 0.5, 3]))))
    for _ in range(c.n(600, 6000)):
        a, b = rvec(r), rvec(r)
        if r.random() < 0.2:
            a = [r.choice([0, 1, -1, x]) for x in a]
        if r.random() < 0.1:
            b = list(a)
        cmds.append("vec %s %s %s" % (hv(a), hv(b), hx(r.choice([0.5, -3, 7e5, r.gauss(0, 1)]))))
    for _ in range(c.n(400, 4000)):
        s = r.choice([1, 1, 1e-4, 1e4])
        m = [r.gauss(0, 1) * s for _ in range(9)]
        if r.random() < 0.3:
            m = [r.randint(-3, 3) for _ in range(9)]
        n = [r.gauss(0, 1) for _ in range(9)]
        cmds.append("mat %s %s %s %s" % (hv(m), hv(n), hx(r.gauss(0, 2)), hv(rvec(r))))
    for i in range(c.n(600, 6000)):
        a = rvec(r)
        k = i % 6
        if k == 0:      # exactly or almost exactly opposite, any length
            f = -r.choice([1, 2.7, 1e-5, 0.3333])
            b = [f * x for x in a]
        elif k == 1:    # parallel
            f = r.choice([1, 2.7, 1e-5, 0.3333])
            b = [f * x for x in a]
        elif k == 2:    # nearly opposite
            e = 10 ** r.uniform(-3, -0.5)
            u, p = unit(a), unit(rvec(r, 1))
            b = [-x + e * y for x, y in zip(u, p)]
        elif k == 3:    # nearly parallel
            e = 10 ** r.uniform(-9, -1)
            u, p = unit(a), unit(rvec(r, 1))
            b = [x + e * y for x, y in zip(u, p)]
        elif k == 4:    # along an axis
            b = [0, 0, 0]
            b[r.randrange(3)] = r.choice([1, -1, 5, -1e-6])
            if r.random() < 0.3:
                a = [-x for x in b]
        else:
            b = rvec(r)
        cmds.append("rot %s %s %s" % (hv(a), hv(b), hv(rvec(r, 1))))
    c.judge("AlgebraTrace", c.observe(exe, cmds), "vector algebra")
    c.assumptions = ["rotations between directions 1e-6 to 1e-3 rad from opposite are only checked by the exact grid, since rounding dominates there"]
