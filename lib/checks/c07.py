"""C07: motion (spec Motion, MotionGen, MotionTrace)."""
import re
from phys import *

MODELS = ("lorentz", "landau", "modified")


def calm(r, p, dt, lo=-6, hi=-1):
    """A field strength whose drag takes only a part of the momentum p in a step dt."""
    m = max(1.0, math.sqrt(sum(k * k for k in p)))
    return min(10 ** r.uniform(lo, hi), math.sqrt(1 / (m * dt)))


def any_field(r, dt, s):
    k = r.random()
    if k < 0.25:
        return static_field(r, s), None
    if k < 0.6:
        return probe_field(r, s, dt), None
    if k < 0.75:
        return plane_field(r, s, lam=dt * r.uniform(4, 300))[0], None
    return beam_field(r, r.choice(["gaussian", "focusing"]), s)


def any_part(r, kinds=("electron", "positron", "lepton", "photon"), dead=0.08):
    k = r.choice(kinds)
    if k == "lepton":
        k = "lepton %s %s" % (hx(10 ** r.uniform(-1, 3)), hx(r.choice([-1, 1, -2, 3, 0.5])))
    p = rv(r, 10 ** r.uniform(-3, 4))
    if r.random() < 0.06 and k != "photon":
        p = [0, 0, 0]
    if r.random() < 0.1:
        p = [0, 0, 0]
        p[r.randrange(3)] = r.choice([5.0, -5.0])
    return k, rv(r, 10 ** r.uniform(-1, 1.5)), p, r.choice([1, r.uniform(0.1, 50)]), r.choice([0, r.uniform(0, 50)]), int(r.random() < 0.6), int(r.random() > dead)


def main(c):
    exe = build_physics(c)
    g = c.model("MotionGen")
    r, cmds = c.rng, []
    for p in g.tagged("CMD"):
        t = eval(p.replace("<<", "[").replace(">>", "]"))
        e, b, mom, q, dt = [t[1], t[2], t[3], t[4], real(t[5])]
        f = "static %s %s" % (hv([0.05 * k for k in e]), hv([0.05 * k for k in b]))
        for m in MODELS:
            cmds.append("push %s %s 2 %s %s" % (m, hx(dt), f, part("electron" if q < 0 else "positron", [1, 2, 3], [10.0 * k for k in mom], track=1)))
    for _ in range(c.n(300, 4000)):
        dt = 10 ** r.uniform(-2, 1)
        for m in MODELS:
            # drag is defined for electrons and positrons
            k, x, p, w, t, trk, al = any_part(r, ("electron", "positron", "lepton", "photon") if m == "lorentz" else ("electron", "positron", "photon"))
            f, geo = any_field(r, dt, calm(r, p, dt))
            if geo:
                t, x = near_pulse(r, geo)
            cmds.append("push %s %s %d %s %s" % (m, hx(dt), r.choice([1, 2, 5]), f, part(k, x, p, w, t, trk, al)))
    for _ in range(c.n(40, 400)):
        dt = 10 ** r.uniform(-2, 1)
        f, geo = any_field(r, dt, calm(r, [3e4], dt))
        n = r.randrange(0, 7)
        ps = []
        for _ in range(n):
            k, x, p, w, t, trk, al = any_part(r, ("electron", "positron", "photon"), 0.25)
            if geo:
                t, x = near_pulse(r, geo)
            ps.append(part(k, x, p, w, t, trk, al))
        cmds.append("pushlist %s %s %s %d %s" % (r.choice(MODELS), hx(dt), f, n, " ".join(ps)))
    for _ in range(c.n(60, 600)):
        k = r.choice(["photon", "electron", "positron"])
        en = r.choice([1.0, 1 + 10 ** r.uniform(-6, 0), 10 ** r.uniform(0, 5)])
        cmds.append("make %s %s %s %s %s %s %s %d %s" % (
            "photon" if k == "photon" else "lepton", hx(-1 if k == "electron" else 1), hx(en), hv(rv(r)), hv(rv(r, 10 ** r.uniform(-3, 3))),
            hx(r.uniform(0.1, 9)), hx(r.uniform(0, 9)), r.randrange(2), hx(r.choice([r.random(), 1e-9 + r.random() * 1e-3, 1 - 2 ** -53]))))
    obs = c.observe(exe, cmds)
    c.judge("MotionTrace", obs, "steps of single particles and lists")
    c.assumptions = ["masses other than the electron's are only moved by the Lorentz force",
                     "double precision: a step may differ from the specified one by 2e-9 of the force times the step"]
