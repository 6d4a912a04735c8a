"""C06: electromagnetic fields (spec Fields, FieldsGen, FieldsTrace)."""
import os, re
from phys import *


def main(c):
    exe = build_physics(c)
    g = c.model("FieldsGen")
    r, cmds = c.rng, []
    for p in g.tagged("CMD"):
        m = re.match(r'<<"CMD", "(\w+)", <<(.*?)>>, (.*), <<([^<]*)>>, (\d+)>>$', p)
        kind, d, pol, x, t = m.groups()
        d, x = [[float(k) for k in s.split(",")] for s in (d, x)]
        pol = real(eval(pol.replace("<<", "[").replace(">>", "]")))
        if kind == "plane":
            f = "plane %s %s %s %s" % (hx(2), hx(5), hx(pol), hv(d))
        else:
            f = "%s %s %s %s %s %s %s %s" % (kind, hx(2), hx(5), hx(4), hx(6), hx(pol), hv([-k for k in d]), hv(d))
        cmds.append("field %s %s %s" % (f, hx(float(t)), hv(x)))
    for _ in range(c.n(60, 600)):
        cmds.append("field %s %s" % (static_field(r), " ".join(hx(r.choice([0, r.uniform(-1e6, 1e6)])) + " " + hv(rv(r, 10 ** r.uniform(-3, 6))) for _ in range(4))))
        f, lam, d = plane_field(r)
        cmds.append("field %s %s" % (f, " ".join(hx(r.choice([0, r.uniform(-20, 20) * lam])) + " " + hv(rv(r, lam * r.choice([0, 1, 30]))) for _ in range(5))))
    for _ in range(c.n(160, 1600)):
        for kind in ("gaussian", "focusing"):
            f, g = beam_field(r, kind)
            pts = [near_pulse(r, g) for _ in range(4)]
            pts.append((0.0, add(g[1], g[0], -g[2])))           # where it starts
            pts.append((g[2], list(g[1])))                      # in focus
            pts.append((r.uniform(-3, 3) * g[4], rv(r, g[3] * 10)))
            cmds.append("field %s %s" % (f, " ".join(hx(t) + " " + hv(x) for t, x in pts)))
    obs = c.observe(exe, cmds)
    # the same place half a period later: the wave must have moved on
    cmds = []
    for ax in ([0, 0, 1], [0, 1, 0], [0.6, 0, -0.8]):
        x = add([1, 2, 3], ax, 0.125)
        cmds.append("field plane %s %s %s %s %s %s %s %s" % (hx(2), hx(1), hx(0.3), hv(ax), hx(5), hv(x), hx(5.5), hv(x)))
        for k in ("gaussian", "focusing"):
            cmds.append("field %s %s %s %s %s %s %s %s %s %s %s %s" % (
                k, hx(2), hx(1), hx(40), hx(5), hx(0.3), hv(add([1, 2, 3], ax, -5)), hv([1, 2, 3]), hx(5), hv(x), hx(5.5), hv(x)))
    car = c.observe(exe, cmds)
    for o in car:
        if o["op"] == "field":
            o["op"] = "carrier"
            if o["f"]["kind"] != "plane":
                o["finding"] = "static-carrier-" + o["f"]["kind"]
    c.judge("FieldsTrace", obs + car, "field values")
    c.assumptions = ["gaussian and focusing beams start away from their focus, so that they have a direction",
                     "a beam travelling exactly against z may be turned about either transverse axis"]
