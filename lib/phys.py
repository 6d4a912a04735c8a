"""Random fields, particles and commands for the physics harness."""
import math
from vf import *


def rv(r, s=1.0):
    return [r.gauss(0, 1) * s for _ in range(3)]


def unit(v):
    m = math.sqrt(sum(x * x for x in v))
    return [x / m for x in v]


def add(a, b, s=1.0):
    return [x + s * y for x, y in zip(a, b)]


def rdir(r):
    """A direction of travel: mostly generic, often special."""
    k = r.random()
    if k < 0.1:
        return [0, 0, 1]
    if k < 0.2:
        return [0, 0, -1]
    if k < 0.35:
        v = [0, 0, 0]
        v[r.randrange(3)] = r.choice([1, -1])
        return v
    return rv(r)


def static_field(r, s=None):
    s = s if s is not None else 10 ** r.uniform(-6, -1)
    k = r.random()
    e = rv(r, s) if k < 0.8 else [0, 0, 0]
    b = rv(r, s) if k > 0.2 else [0, 0, 0]
    return "static %s %s" % (hv(e), hv(b))


def probe_field(r, s=None, dt=1.0):
    s = s if s is not None else 10 ** r.uniform(-4, -1)
    return "probe " + " ".join(hv(v) for v in [rv(r, s), rv(r, s / (3 * dt)), rv(r, s / (3 * dt)), rv(r, s), rv(r, s / (3 * dt)), rv(r, s / (3 * dt)), rv(r)])


def plane_field(r, s=None, lam=None, d=None):
    s = s if s is not None else 10 ** r.uniform(-6, -1)
    lam = lam or 10 ** r.uniform(0, 5)
    d = d or [x * r.choice([1, 1, 3.5]) for x in rdir(r)]
    return "plane %s %s %s %s" % (hx(s), hx(lam), hx(r.choice([0, r.uniform(-4, 4), math.pi / 2])), hv(d)), lam, d


def beam_field(r, kind, s=None):
    """gaussian or focusing; returns the text and (axis, focus, t0, lam, tau, waist)."""
    s = s if s is not None else 10 ** r.uniform(-6, 0)
    lam = 10 ** r.uniform(0, 4)
    tau = lam * r.uniform(1, 20)
    waist = lam * (r.uniform(0.8, 5) if kind == "focusing" else r.uniform(0.5, 20))
    foc = r.choice([[0, 0, 0], rv(r, lam * 3)])
    ax = unit(rdir(r))
    t0 = r.choice([lam * r.uniform(0.1, 30), lam * 3])
    if r.random() < 0.3:
        t0 = lam * 0.5
    start = add(foc, ax, -t0)
    return ("%s %s %s %s %s %s %s %s" % (kind, hx(s), hx(lam), hx(tau), hx(waist), hx(r.choice([0, r.uniform(-4, 4)])), hv(start), hv(foc)),
            (ax, foc, t0, lam, tau, waist))


def near_pulse(r, g):
    """A time and a place where the pulse is."""
    ax, foc, t0, lam, tau, waist = g
    z = r.choice([0, r.uniform(-3, 3) * waist, r.uniform(-1, 1) * lam, r.uniform(-1, 1) * waist * waist / lam * 3])
    t = t0 + z + r.choice([0, r.gauss(0, 0.7) * tau])
    p = rv(r)
    d = sum(a * b for a, b in zip(p, ax))
    perp = unit(add(p, ax, -d))
    x = add(add(foc, ax, z), perp, r.choice([0, abs(r.gauss(0, 0.8)) * waist]))
    return t, x


def part(kind, x, p, w=1.0, t=0.0, track=0, alive=1):
    return "%s %s %s %s %s %d %d" % (kind, hv(x), hv(p), hx(w), hx(t), track, alive)


def build_physics(c):
    return c.build.link("physics", [(os.path.join(HARN, "physics.cpp"), []), os.path.join(HARN, "rngshim.cpp")] + repo_sources(*CORE), flags=SHIM)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def lepton_eta(p, e, b):
    g = math.sqrt(1 + dot(p, p))
    m = math.sqrt(dot(p, p))
    n = [x / m for x in p] if m else [0, 0, 0]
    be = m / g
    al = dot(e, n)
    f = add(add(e, n, -al), cross(n, b), be)
    return g * math.sqrt(dot(f, f) + (al / g) ** 2)


def photon_chi(p, e, b):
    m = math.sqrt(dot(p, p))
    n = [x / m for x in p]
    f = add(add(e, n, -dot(e, n)), cross(n, b))
    return 0.5 * m * math.sqrt(dot(f, f))


def static_with(r, p, target, measure):
    """A static field in which the particle's eta or chi has the wanted value."""
    while True:
        k = r.random()
        e = rv(r) if k < 0.75 else [0, 0, 0]
        b = rv(r) if k > 0.25 else [0, 0, 0]
        m = measure(p, e, b)
        if m > 1e-12:
            s = target / m
            return "static %s %s" % (hv([x * s for x in e]), hv([x * s for x in b]))


def uniforms(r, n=6):
    return " ".join(hx(r.choice([r.random(), r.random(), r.random(), 1e-9, 1 - 2 ** -53, r.random() ** 4])) for _ in range(n))


def emission_cmd(r, kind, t):
    """One interaction of a lepton with a process of kind stoch, cont or classic."""
    import tables
    lo, hi = tables.log_range(tables.eta_axis(t))
    p = rv(r, 10 ** r.uniform(-1, 4))
    k = r.random()
    eta = 10 ** r.uniform(lo, hi)
    emits = True
    if kind == "stoch" and k < 0.08:
        eta, emits = 10 ** r.uniform(-16, lo), False
    if kind == "classic" and k < 0.2:
        eta = 10 ** r.uniform(-16, 3)
    if kind == "cont" and k < 0.1:
        eta = 10 ** r.uniform(-16, -12.1)
    f = static_with(r, p, eta, lepton_eta)
    if r.random() < 0.06:
        f, eta = "static 0 0 0 0 0 0", 0
    who = r.choice(["electron", "positron"])
    if r.random() < 0.05:
        who, emits = "photon", False
    dt = 10 ** r.uniform(-2, 3)
    g = math.sqrt(1 + dot(p, p))
    d = dt * 1.732 * 0.0073 * eta * 3 / (6.2832 * g)
    od = d * r.choice([1e-3, 1e-3, r.uniform(0.3, 2), 3, 50]) if emits else d * 50 + 1e-9
    frac = r.choice([1, 1, r.uniform(0.05, 0.95), 0.5])
    emin = r.choice([0, 0, g * 10 ** r.uniform(-5, 0), 1e9])
    return "proc %s %s %s %s %d %s %s %s %s" % (
        kind, hx(dt), hx(frac), hx(emin), r.randrange(2), hx(od), f,
        part(who, rv(r, 5), p, r.choice([1, r.uniform(0.1, 40)]), r.uniform(0, 9), r.randrange(2), int(r.random() > 0.05)), uniforms(r))


def pair_cmd(r, t):
    import tables
    lo, hi = tables.log_range(t["splitx"])
    en = r.choice([10 ** r.uniform(0.31, 5), 10 ** r.uniform(0.31, 5), r.uniform(1, 3), 2 + 10 ** r.uniform(-6, 0)])
    p = [x * en for x in unit(rv(r))]
    chi = 10 ** r.uniform(lo, hi)
    emits = True
    if r.random() < 0.08:
        chi, emits = 10 ** r.uniform(-14, lo), False
    f = static_with(r, p, chi, photon_chi)
    if r.random() < 0.06:
        f, chi = "static 0 0 0 0 0 0", 0
    who = "photon"
    if r.random() < 0.07:
        who, emits = r.choice(["electron", "positron"]), False
    dt = 10 ** r.uniform(-2, 3)
    import bisect
    j = min(max(bisect.bisect(t["tx"], math.log10(chi)) - 1, 0), len(t["tx"]) - 2) if chi else 0
    y = t["ty"][j] + (t["ty"][j + 1] - t["ty"][j]) * ((math.log10(chi) if chi else 0) - t["tx"][j]) / (t["tx"][j + 1] - t["tx"][j])
    d = dt * 0.0073 * chi * 10 ** y / en
    od = d * r.choice([1e-3, 1e-3, r.uniform(0.5, 1.5), 0.97, 50]) if emits else d * 50 + 1e-9
    return "proc pair %s %s 0 %d %s %s %s %s" % (
        hx(dt), hx(1), r.randrange(2), hx(od), f,
        part(who, rv(r, 5), p, r.choice([1, r.uniform(0.1, 40)]), r.uniform(0, 9), r.randrange(2), int(r.random() > 0.06)), uniforms(r))


def interactions(c, exe, gen, kinds, count_small, count_real):
    """Runs interactions with random small tables and with the shipped ones:
    those the specification enumerates and random ones."""
    import random, re, tables
    d = os.path.join(c.work, "model")
    tables.write_tables(random.Random(3), d, neta=5, nchi=4, nh=4, nt=6, ns=5)
    tables.tables_json(d, d + ".json")
    cmds = []
    for p in c.model("ProcessesGen", env={"TABLES": d + ".json"}).tagged("CMD"):
        m = re.match(r'<<"CMD", "(\w+)", "(\w+)", (.*)>>$', p)
        if m.group(1) in kinds:
            mom, b, u = eval("[" + m.group(3).replace("<<", "[").replace(">>", "]") + "]")
            f = "static 0 0 0 0 0 %s" % hx(real(b))
            for od, frac in ((1e-24, 1), (9, 1), (1e-24, 0.5)):
                cmds.append("proc %s %s %s 0 0 %s %s %s %s" % (m.group(1), hx(1), hx(frac), hx(od), f, part(m.group(2), [0, 0, 0], [real(k) for k in mom]),
                            uniforms(c.rng, 1) + " " + hx(real(u)) if m.group(1) in ("cont", "classic") else hx(real(u))))
    obs = c.observe(exe, cmds, env={"QED_TABLES_PATH": d})
    c.judge("ProcessesTrace", obs, "interactions enumerated by the specification", env={"TABLES": d + ".json"})
    for k in range(c.n(3, 8)):
        d = os.path.join(c.work, "tables%d" % k)
        tables.write_tables(c.rng, d, neta=c.rng.randrange(4, 9), nchi=c.rng.randrange(3, 9), nh=c.rng.randrange(3, 12), nt=c.rng.randrange(3, 14), ns=c.rng.randrange(4, 9))
        t = tables.tables_json(d, d + ".json")
        obs = c.observe(exe, [gen(c.rng, t) for _ in range(count_small)], env={"QED_TABLES_PATH": d})
        c.judge("ProcessesTrace", obs, "interactions with random tables %d" % k, env={"TABLES": d + ".json"})
    d = os.path.join(REPO, "Tables")
    t = tables.tables_json(d, os.path.join(c.work, "real.json"))
    obs = c.observe(exe, [gen(c.rng, t) for _ in range(count_real)], env={"QED_TABLES_PATH": d})
    c.judge("ProcessesTrace", obs, "interactions with the shipped tables", env={"TABLES": os.path.join(c.work, "real.json")})
