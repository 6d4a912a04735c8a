"""Input files: settings, the many ways to write them, and faults."""
from vf import *
from phys import rv

REAL = {"General": ["time_step", "time_end"], "Physics": ["min_energy", "sample_fraction"],
        "Particle": ["energy_mean", "energy_sig", "radius", "divergence", "duration"], "Histogram": ["time", "min_bin", "max_bin"]}
FIELD = {"static": ([], ["e_field", "b_field"]), "plane": (["e_max", "wavelength", "polerisation"], ["direction"]),
         "gaussian": (["e_max", "wavelength", "polerisation", "duration", "waist"], ["start", "focus"]),
         "focusing": (["e_max", "wavelength", "polerisation", "duration", "waist"], ["start", "focus"])}
TRUE, FALSE = ["true", "yes", "on", "1"], ["false", "no", "off", "0"]
MODELS = ["Classical", "classical", "Semiclassical", "semiclassical", "Quantum", "quantum"]
SPECIES = ["Electron", "electron", "Positron", "positron", "Photon", "photon"]


def build_input(c):
    return c.build.link("input", [os.path.join(HARN, "input.cpp")] + repo_sources("IO", *CORE), libs=HDFLIB)


def num(r, pos=False, small=False):
    """A real as a user may write it."""
    x = r.choice([0, 1, r.uniform(-10, 10), 10 ** r.uniform(-20, 20), r.randrange(-1000, 1000)]) if not small else r.uniform(-1, 1)
    if pos:
        x = abs(x) or 1.5e-16
    k = r.random()
    if k < 0.4:
        t = repr(float(x))
    elif k < 0.6:
        t = "%.*e" % (r.randrange(0, 16), x)
    elif k < 0.7:
        t = ("%.*E" % (r.randrange(0, 10), x)).replace("E-0", "E-").replace("E+0", "E+" if r.random() < 0.5 else "E")
    elif k < 0.8 and abs(x) < 1e5:
        t = "%.6f" % x
        if t.startswith("0.") and r.random() < 0.5:
            t = t[1:]
    elif abs(x) < 1e8 and x == int(x):
        t = r.choice(["%d", "%d.", "%d.0"]) % x
    else:
        t = "%.17g" % x
    if pos and float(t) <= 0:
        t = repr(float(x))
    if t[0] not in "+-" and r.random() < 0.1:
        t = "+" + t
    return t


def vecs(r, k=3):
    v = [num(r) for _ in range(k)]
    b = r.choice(["[]", "[]", "()", "{}", "<>", "  ", ["", ""]])
    s = r.choice([" ", ", ", ",", "  ", " , ", "\t", "|", "/", ";", " : "])
    return b[0] + s.join(v) + b[1]


def count(r, hi):
    n = r.randrange(hi)
    return r.choice(["%d", "%d", "+%d", "0x%x", "0X%X"]) % n


def flag(r, v=None):
    t = r.choice(TRUE if (r.random() < 0.5 if v is None else v) else FALSE)
    return r.choice([t, t.upper(), t.capitalize(), "".join(r.choice([x, x.upper()]) for x in t)])


def word(r):
    return "".join(r.choice("abcXYZ019_-./ ") for _ in range(r.randrange(1, 12))).strip(" .") or "w"


def settings_lists(r, runnable=False):
    """A valid input as [(section, [(key, value)])]; settings are left out at random."""
    def some(kv, p=0.75):
        out = [x for x in kv if r.random() < p]
        r.shuffle(out)
        return out
    secs = []
    g = [("units", r.choice(["SI", "si"])), ("time_step", num(r, pos=True)), ("time_end", num(r))]
    g += some([("file_name", word(r) if r.random() < 0.9 else "/".join(["directory"] * r.randrange(10, 15))), ("tracking", flag(r))])
    r.shuffle(g)
    secs.append(("General", g))
    if r.random() < 0.85:
        kind = r.choice(sorted(FIELD))
        a, b = FIELD[kind]
        f = [("field_type", kind)] + some([(k, num(r)) for k in a] + [(k, vecs(r)) for k in b])
        if r.random() < 0.3:     # settings of other kinds are of no account
            f += [(k, v) for k, v in some([("e_field", vecs(r)), ("waist", num(r)), ("direction", vecs(r)), ("focus", vecs(r))], 0.5) if k not in a + b]
        r.shuffle(f)
        secs.append(("Field", f))
    if r.random() < 0.85:
        secs.append(("Physics", some([("radiation_model", r.choice(MODELS + [word(r)])), ("min_energy", num(r)), ("sample_fraction", num(r)), ("pair_production", flag(r))], 0.8)
                     or [("sample_fraction", num(r))]))
    ns = r.randrange(0, 4)
    for i in list(range(1, ns + 1)) + ([ns + 2] if r.random() < 0.3 else []):
        p = some([("number_particles", count(r, 10000)), ("name", word(r)), ("particle_type", r.choice(SPECIES + [word(r)])),
                  ("energy_distribution", r.choice(["mono", "Mono", "gaussian", "linear", word(r)])), ("position", vecs(r)), ("direction", vecs(r)),
                  ("output", flag(r))] + [(k, num(r)) for k in REAL["Particle"]])
        secs.append(("Particle%d" % i, p or [("name", word(r))]))
    nh = r.randrange(0, 4) if r.random() < 0.9 else 11
    for i in list(range(1, nh + 1)) + ([nh + 2] if r.random() < 0.3 else []):
        h = some([("name", word(r)), ("particle", r.choice(SPECIES)), ("type", r.choice(["energy", "X", "py", word(r)])), ("bins", count(r, 5000))]
                 + [(k, num(r)) for k in REAL["Histogram"]])
        secs.append(("Histogram%d" % i, h or [("bins", "7")]))
    if r.random() < 0.2:
        secs.append((word(r) + "x", [("time_step", "3"), ("output", "yes")]))
    return secs


def case(r, s):
    return r.choice([s, s, s, s, s.upper(), s.lower(), s.swapcase()])


def render(r, secs):
    """The text of an input file: one of the many that mean the same."""
    secs = list(secs)
    r.shuffle(secs)
    out, eol = [], r.choice(["\n", "\n", "\n", "\r\n"])
    tidy = r.random() < 0.3

    def noise():
        while not tidy and r.random() < 0.2:
            out.append(r.choice(["", "   ", "# a comment", "; time_step = 99", "  # [General]", "\t; indented = 1", "#", ";x=[1 2 3 4 5]",
                                 "# " + "long comment " * r.randrange(8, 13) + " time_end = 77"]))
    for name, kv in secs:
        parts = [kv]
        if len(kv) > 1 and r.random() < 0.08:
            k = r.randrange(1, len(kv))
            parts = [kv[:k], kv[k:]]
        for p in parts:
            noise()
            out.append("[%s]%s" % (case(r, name), "" if tidy else r.choice(["", "", "", "  ", " ; note"])))
            for first, (k, v) in enumerate(p):
                noise()
                k = case(r, k)
                if first == 0 and not tidy and r.random() < 0.15:
                    k = r.choice(["  ", "\t"]) + k     # only further settings of a section must not be indented
                if tidy:
                    out.append("%s = %s" % (k, v))
                    continue
                sep = r.choice([" = ", " = ", "=", ": ", ":", "\t=\t", "   =   "])
                if " " in sep and r.random() < 0.07 and "\t" not in v and any(x in v for x in "123456789"):
                    out.append(k + " =")
                    noise()
                    out.append("   " + v)
                    continue
                out.append("%s%s%s%s" % (k, sep, v, r.choice(["", "", "", "", "  ", "\t", " ; old = [7 7]", "\t;7"])))
    noise()
    t = eol.join(out)
    return (t + eol) if r.random() < 0.9 else t


FAULTS = ["no general", "no step", "no end", "no units", "bad units", "zero step", "bad field", "long vector", "long source", "no value step", "negative number", "negative bins"]


def break_it(r, secs, fault):
    """The settings with a fault."""
    secs = [(n, list(kv)) for n, kv in secs]
    get = {n: kv for n, kv in secs}
    g = get.get("General", [])

    def drop(kv, k):
        kv[:] = [x for x in kv if x[0] != k]

    def put(kv, k, v):
        drop(kv, k)
        kv.insert(r.randrange(len(kv) + 1), (k, v))
    if fault == "no general":
        n = r.choice([None, "Genera", "General ", "General1", "Generals"])
        secs = [x if x[0] != "General" else (n, x[1]) for x in secs if n or x[0] != "General"]
    elif fault in ("no step", "no end", "no units"):
        drop(g, {"no step": "time_step", "no end": "time_end", "no units": "units"}[fault])
        if not g:
            g.append(("file_name", "x"))
        if r.random() < 0.5:      # the same name elsewhere does not help
            secs.append(("Other", [("time_step", "1e-16"), ("time_end", "1"), ("units", "SI")]))
    elif fault == "bad units":
        put(g, "units", r.choice(["cgs", "Si", "sI", "MKS", "SI units", "none", "1", ""]))
    elif fault == "zero step":
        put(g, "time_step", r.choice(["0", "0.0", "-1e-16", "-0", "abc", "", "-5"]))
    elif fault == "no value step":
        put(g, "time_step", "")
    elif fault == "bad field":
        if "Field" not in get:
            secs.append(("Field", []))
        f = [kv for n, kv in secs if n == "Field"][0]
        if r.random() < 0.3:
            drop(f, "field_type")
            if not f:
                f.append(("e_max", "1"))
        else:
            put(f, "field_type", r.choice(["Static", "laser", "gauss", "none", "plane wave", "0", "staticc", "", "GAUSSIAN"]))
    elif fault == "long vector":
        kind = r.choice(sorted(FIELD))
        secs = [x for x in secs if x[0] != "Field"] + [("Field", [("field_type", kind), (r.choice(FIELD[kind][1]), vecs(r, r.randrange(4, 7)))])]
    elif fault in ("negative number", "negative bins"):
        n, k = ("Particle1", "number_particles") if fault == "negative number" else ("Histogram1", "bins")
        if n not in get:
            secs.append((n, []))
        put([kv for m, kv in secs if m == n][0], k, r.choice(["-1", "-2", "-0x1F", "-300", "-1 particles"]))
    elif fault == "long source":
        if "Particle1" not in get:
            secs.append(("Particle1", []))
        put([kv for n, kv in secs if n == "Particle1"][0], r.choice(["position", "direction"]), vecs(r, r.randrange(4, 7)))
    return secs


def parse_all(c, exe, texts, what, ref):
    """The real reader on every text, judged."""
    d = os.path.join(c.work, "texts-%d" % time.monotonic_ns())
    os.makedirs(d)
    cmds = []
    for i, t in enumerate(texts):
        p = os.path.join(d, "%d.ini" % i)
        with open(p, "w", newline="") as f:
            f.write(t)
        cmds.append("parse %s %s" % (p, d))
    obs = c.observe_par(exe, cmds)
    shutil.rmtree(d, ignore_errors=True)
    refp = os.path.join(c.work, "ref.ndjson")
    with open(refp, "w") as f:
        f.write(json.dumps(ref) + "\n")
    c.judge("InputTrace", obs, what, env={"REF": refp})
    return obs


def sections_of(text):
    """A plainly written input file as [(section, [(key, value)])]."""
    out = []
    for line in text.splitlines():
        if line.startswith("["):
            out.append((line[1:-1], []))
        elif line:
            k, v = line.split(" = ", 1)
            out[-1][1].append((k, v))
    return out


def beam_file(r, ref, n):
    """Beams that are not small, in hardly any field, for hardly any time."""
    T, L, E, W = (real(ref[k]) for k in ("time", "length", "efield", "energy"))
    secs = [("General", [("units", "SI"), ("time_step", "%r" % (1e-6 * T)), ("time_end", "%r" % (5e-7 * T)), ("file_name", "out.h5")]),
            ("Field", [("field_type", "static")]), ("Physics", [("radiation_model", r.choice(MODELS))])]
    for i in range(r.randrange(2, 5)):
        d = r.choice(["gaussian", "gaussian", "linear", "mono"])
        e = 10 ** r.uniform(1, 3)
        num = n if i < 2 else r.randrange(1, 5)
        kv = [("number_particles", str(num)), ("particle_type", r.choice(SPECIES)), ("energy_distribution", d),
              ("energy_mean", repr(e * W)), ("energy_sig", repr(W * (e * r.uniform(0.02, 0.1) if d == "gaussian" else e * r.uniform(1.3, 3)))),
              ("position", "[%r %r %r]" % tuple(L * v for v in rv(r, 50))), ("direction", "[%r %r %r]" % tuple(v * r.choice([1, 3]) for v in rv(r))), ("output", "true" if i != 1 or r.random() < 0.5 else "false")]
        for k, v in (("radius", 10 ** r.uniform(0, 2) * L), ("duration", 10 ** r.uniform(0, 2) * T), ("divergence", r.choice([0.01, 0.2]))):
            if r.random() < 0.75 and num > 100 or r.random() < 0.1 and num <= 100:
                kv.append((k, repr(v)))
        secs.append(("Particle%d" % (i + 1), kv))
    return secs
