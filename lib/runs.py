"""Runs of the program: settings, input files, execution and what it wrote."""
import concurrent.futures, json, math, os, re, subprocess
from vf import *
from phys import rv, unit, dot, add, rdir
import tables

MODELS = ("Classical", "Semiclassical", "Quantum")
MASS = {"Electron": 1, "Positron": 1, "Photon": 0}
SPECIES = ("Electron", "Positron", "Photon")


def main_sources():
    return [s for s in repo_sources("Exec", "IO", *CORE)]


OMP = ["-DUSEOPENMP", "-fopenmp"]
JITTER = ["-fsanitize=thread"]          # calls at memory accesses, answered by harness/jitter.cpp


def build_main(c, name="qedcasc", flags=(), libs=(), shim=True, jitter=False):
    """The command-line program, by default with scripted random draws."""
    fl = list(flags) + (SHIM if shim else [])
    src = [(s, JITTER if jitter else []) for s in main_sources()]
    src += [os.path.join(HARN, f) for f, on in (("rngshim.cpp", shim), ("jitter.cpp", jitter)) if on]
    return c.build.link(name, src, flags=fl, libs=HDFLIB + list(libs))


def build_dump(c):
    return c.build.link("h5dump", [os.path.join(HARN, "h5dump.cpp")] + repo_sources("Tools"), libs=HDFLIB)


def reference_units(c):
    """The code's reference units (judged by C18)."""
    exe = c.build.link("units", [os.path.join(HARN, "units.cpp")] + repo_sources("Tools"))
    for o in c.observe(exe, ["units SI"]):
        if o["op"] == "units":
            return o
    raise CheckError("no reference units")


# ------------------------------------------------------------------ settings
def field_scale(f):
    if f["kind"] == "static":
        return math.sqrt(dot(f["e"], f["e"])) + math.sqrt(dot(f["b"], f["b"]))
    return 2 * f["max"]


def make_field(r, kind, s, dt, dirs):
    """A field of total strength about s, in code units."""
    if kind == "none":
        return {"kind": "static", "e": [0, 0, 0], "b": [0, 0, 0]}
    if kind == "static":
        k = r.random()
        e = rv(r) if k < 0.6 else [0, 0, 0]
        b = rv(r) if k > 0.2 else [0, 0, 0]
        m = math.sqrt(dot(e, e)) + math.sqrt(dot(b, b))
        return {"kind": "static", "e": [x * s / m for x in e], "b": [x * s / m for x in b]}
    d = unit([-x + 0.3 * y for x, y in zip(unit(dirs[0]), rv(r))])
    lam = dt * r.uniform(15, 60)
    if kind == "plane":
        return {"kind": "plane", "max": s / 2, "lam": lam, "pol": r.choice([0, r.uniform(-3, 3)]), "dir": [x * 2 for x in d]}
    tau = lam * r.uniform(2, 6)
    waist = lam * r.uniform(2, 6)
    t0 = dt * r.uniform(2, 6)
    foc = rv(r, lam * 0.05)
    return {"kind": kind, "max": s / 2, "lam": lam, "tau": tau, "waist": waist, "pol": r.choice([0, r.uniform(-3, 3)]),
            "start": add(foc, d, -t0), "focus": foc}


def make_run(r, t, src, model="Quantum", pair=False, track=True, steps=3.5, hist=(), kind="static", rate=None, u=None, emin=None, frac=None, cap=None):
    """src: (species, number, output, spread); hist: (species, quantity, steps, bins)."""
    u = u if u is not None else r.choice([r.uniform(0.15, 0.48), r.uniform(0.52, 0.85)])
    lo, hi = tables.log_range(tables.eta_axis(t))
    hi = min(hi, t["splitx"][-1])
    cap = {"Classical": -1.2, "Semiclassical": -0.4}.get(cap or model, 9)
    top = 10 ** r.uniform(-1.6, max(-1.5, min(hi - 0.4, cap)))
    g0 = 10 ** r.uniform(2.6, 3.6)
    dirs = [rdir(r) for _ in src] or [[0, 0, 1]]
    od = -math.log(1 - u)
    rate = rate if rate is not None else 10 ** r.uniform(-0.5, 0.5)
    if (model if cap is None else "Quantum") == "Quantum":
        dt = rate * od * g0 / (0.002 * top * 2.5)
    else:
        dt = r.uniform(0.2, 1.5) * g0 / (0.01 * max(top, 0.02)) * 0.1
    s = top / g0
    f = make_field(r, kind, s, dt, dirs)
    if frac is None:
        frac = r.choice([1, 1, r.uniform(0.1, 0.95)])
    if emin is None:
        emin = r.choice([0, 0, 0, g0 * 10 ** r.uniform(-4, -1)])
    out = []
    for (who, num, outp, spread), d in zip(src, dirs):
        out.append({"who": who, "num": num, "out": outp, "exact": not spread, "e": g0 * r.uniform(0.4, 1.2), "x": r.choice([[0, 0, 0], rv(r, dt)]),
                    "dir": [x * r.choice([1, 1, 3]) for x in d], "esig": g0 * 0.02 if spread else 0, "radius": 0.3 * dt if spread else 0,
                    "tau": 0.2 * dt if spread else 0, "div": 0.05 if spread else 0,
                    "distro": r.choice(["gaussian", "Gaussian"]) if spread else r.choice(["mono", "Mono"])})
    hs = []
    L = dt * (steps + 1)
    for i, (who, what, when, bins) in enumerate(sorted(hist, key=lambda h: h[2])):
        span = {"e": (0, 1.3 * g0), "x": (-L, L), "y": (-L, L), "z": (-L, L)}.get(what.lower()[0], (-1.3 * g0, 1.3 * g0))
        if what.lower().startswith("p"):
            span = (-1.3 * g0, 1.3 * g0)
        a, b = (v * r.uniform(0.9, 1.2) for v in span)
        k = r.random()
        if k < 0.3:
            a, b = a + (b - a) * r.uniform(0, 0.4), b - (b - a) * r.uniform(0, 0.4)
        hs.append({"name": "h%d" % i, "who": who, "what": what, "when": when, "lo": a, "hi": b, "bins": bins})
    return {"u": u, "dt": dt, "steps": steps, "field": f, "model": model, "pair": pair, "track": track, "frac": frac, "emin": emin, "src": out, "hist": hs}


def big_runs(r, t, n=1):
    """Runs that are large in one way each: events, steps, particles, sources,
    histograms or bins."""
    out = []
    for _ in range(n):
        who = r.choice(SPECIES)
        out.append(make_run(r, t, [(who, r.choice([130, 260, 300]), True, True)], model=r.choice(MODELS), pair=False, track=r.random() < 0.5, steps=0.5, kind="none",
                            hist=[(who, "energy", 0, 4), (who, "z", 50, 150)]))
        out.append(make_run(r, t, [(r.choice(SPECIES), 1, True, False)], model=r.choice(MODELS), pair=False, track=True, steps=r.choice([130.5, 260.5]), kind="static",
                            rate=0.05, frac=0.1, hist=[(w, "px", k, 7) for w in SPECIES for k in (120, 125.5)]))
        out.append(make_run(r, t, [(r.choice(SPECIES[:2]), 1, True, False)], model=r.choice(MODELS[:2]), pair=False, track=r.random() < 0.5, steps=r.choice([101.5, 131.5]),
                            kind="static", emin=0, frac=1, hist=[(w, "energy", 999, 5) for w in SPECIES]))
        out[-1]["dt"] *= 0.05
        out.append(make_run(r, t, [(r.choice(SPECIES[:2]), 1, True, False)], model="Quantum", pair=False, track=False, steps=r.choice([60.5, 80.5]), kind="static",
                            rate=8, emin=0, frac=1, u=r.uniform(0.15, 0.17), hist=[(w, "energy", 999, 5) for w in SPECIES]))
        out.append(make_run(r, t, [(r.choice(SPECIES), r.choice([1, 1, 1, 2, 0]), r.random() < 0.7, False) for _ in range(13)], track=r.random() < 0.5, steps=1.5,
                            hist=[(r.choice(SPECIES), r.choice(["energy", "x", "pz"]), r.choice([0, 0.5, 1, 1.5, 9]), r.choice([2, 5, 11])) for _ in range(14)]))
        w = r.choice(SPECIES)
        out.append(make_run(r, t, [(w, 40, True, True)], track=False, steps=1.5, rate=0.5, hist=[(w, r.choice(["energy", "px"]), k, b) for k, b in ((0, 1001), (1, 300), (99, 129))]))
    return out


def si(run, ref):
    """The settings in SI units, as they go to the input file and to TLC."""
    T, L, E, B, W = (real(ref[k]) for k in ("time", "length", "efield", "bfield", "energy"))
    f = run["field"]
    g = dict(f)
    for k, s in (("e", E), ("b", B), ("start", L), ("focus", L)):
        if k in f:
            g[k] = [x * s for x in f[k]]
    for k, s in (("max", E), ("lam", L), ("tau", T), ("waist", L)):
        if k in f:
            g[k] = f[k] * s
    dt = run["dt"] * T
    o = dict(run, field=g, dt=dt, end=dt * run["steps"], emin=run["emin"] * W)
    o["src"] = [dict(s, e=s["e"] * W, esig=s["esig"] * W, x=[v * L for v in s["x"]], radius=s["radius"] * L, tau=s["tau"] * T) for s in run["src"]]
    o["hist"] = [dict(h, time=dt * h["when"]) for h in run["hist"]]
    return o


def vec(v):
    return "[%s]" % " ".join(repr(float(x)) for x in v)


def ini_text(s, name="out.h5"):
    """The input file of a run, plainly written."""
    o = ["[General]", "units = SI", "time_step = %r" % s["dt"], "time_end = %r" % s["end"], "file_name = " + s.get("file", name), "tracking = %s" % ("true" if s["track"] else "false")]
    f = s["field"]
    o += ["[Field]", "field_type = " + f["kind"]]
    names = {"e": "e_field", "b": "b_field", "max": "e_max", "lam": "wavelength", "tau": "duration", "waist": "waist", "pol": "polerisation",
             "start": "start", "focus": "focus", "dir": "direction"}
    for k, n in names.items():
        if k in f:
            o.append("%s = %s" % (n, vec(f[k]) if isinstance(f[k], list) else repr(float(f[k]))))
    o += ["[Physics]", "radiation_model = " + s["model"], "sample_fraction = %r" % float(s["frac"]), "min_energy = %r" % float(s["emin"]),
          "pair_production = %s" % ("true" if s["pair"] else "false")]
    for i, p in enumerate(s["src"]):
        o += ["[Particle%d]" % (i + 1), "number_particles = %d" % p["num"], "particle_type = " + p["who"], "energy_distribution = " + p["distro"],
              "position = " + vec(p["x"]), "direction = " + vec(p["dir"]), "energy_mean = %r" % p["e"], "energy_sig = %r" % float(p["esig"]),
              "radius = %r" % float(p["radius"]), "duration = %r" % float(p["tau"]), "divergence = %r" % float(p["div"]), "output = %s" % ("true" if p["out"] else "false")]
    for i, h in enumerate(s["hist"]):
        o += ["[Histogram%d]" % (i + 1), "name = " + h["name"], "particle = " + h["who"], "type = " + h["what"], "time = %r" % float(h["time"]),
              "bins = %d" % h["bins"], "min_bin = %r" % float(h["lo"]), "max_bin = %r" % float(h["hi"])]
    return "\n".join(o) + "\n"


# ----------------------------------------------------------------- execution
def rows(d, width):
    return [d["data"][i:i + width] for i in range(0, len(d["data"]), width)] if d["dims"][-1] == width and len(d["dims"]) == 2 else [["bad shape"]]


def read_out(dump, hist_names=()):
    """The contents of an output file by meaning; what has no meaning is extra."""
    out = {"src": [], "tracks": [], "hist": [], "extra": []}
    groups = list(dump["groups"])
    sets = {d["path"]: d for d in dump["sets"]}
    used = {"Particles", "Fields", "Histograms", "Particles/ParticleTrack"}

    def take(p):
        used.add(p)
        return sets.get(p)
    k = 0
    while True:
        k += 1
        g = "Particles/ParticleSource" + (str(k) if k > 1 else "")
        if g not in groups:
            break
        used.add(g)
        o = {"name": g}
        for key, n in (("prim", "Primary"), ("ele", "Electrons"), ("pos", "Positrons"), ("pho", "Photons")):
            d = take(g + "/" + n)
            o[key] = rows(d, 8) if d else []
        out["src"].append(o)
    i = 0
    while "Particles/ParticleTrack/Event%d" % i in groups:
        g = "Particles/ParticleTrack/Event%d" % i
        used.add(g)
        x, p, t, ga = (take(g + "/" + n) for n in ("Position", "Momentum", "Time", "Gamma"))
        out["tracks"].append({"x": rows(x, 3) if x else [["missing"]], "p": rows(p, 3) if p else [["missing"]],
                              "t": t["data"] if t and len(t["dims"]) == 1 else [["missing"]], "g": ga["data"] if ga and len(ga["dims"]) == 1 else [["missing"]]})
        i += 1
    names = list(hist_names) + sorted(g.split("/")[1] for g in groups if g.startswith("Histograms/") and g.split("/")[1] not in hist_names)
    for n in names:
        if "Histograms/" + n not in groups:
            continue
        used.add("Histograms/" + n)
        c, v = take("Histograms/%s/BinCentres" % n), take("Histograms/%s/BinValues" % n)
        out["hist"].append({"name": n, "c": c["data"] if c else [], "v": v["data"] if v else []})
    for p in groups + list(sets):
        if p not in used:
            out["extra"].append(p)
    return out


def dump_files(dump, paths, chunk=40):
    """What an independent reader finds in files; nothing in one it cannot read."""
    def one(part):
        r = run([dump] + part, timeout=300)
        try:
            out = [json.loads(x) for x in r.stdout.decode(errors="replace").splitlines()]
        except ValueError:
            out = []
        if len(out) == len(part):
            return out
        if len(part) == 1:
            return [{"open": False, "groups": [], "sets": []}]
        return [x for p in part for x in one([p])]
    parts = [paths[i:i + chunk] for i in range(0, len(paths), chunk)]
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        return [x for p in ex.map(one, parts) for x in p]


def execute(c, cmd, jobs, dump, timeout=60):
    """jobs: (directory, environment, output file name, histogram names). Runs
    the program in each; returns status and contents of its output file."""
    def one(j):
        d, env, fn, names = j
        e = dict(os.environ, OMP_WAIT_POLICY="passive")
        e.update(env)
        r = run(cmd + ["in.ini"], cwd=d, env=e, timeout=timeout)
        return r.returncode, (r.stdout + r.stderr).decode(errors="replace")[-400:]
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        st = list(ex.map(one, jobs))

    ds = dump_files(dump, [os.path.join(d, fn) for d, env, fn, names in jobs])
    res = []
    for (rc, text), dmp, j in zip(st, ds, jobs):
        o = read_out(dmp, j[3])
        o["status"] = rc if rc >= 0 else 1000 - rc
        if rc == 0 and not dmp["open"]:
            o["status"] = 2000
        o["text"] = text if rc else ""
        res.append(o)
    return res


def tla(s):
    """Settings or observations with doubles as pairs."""
    if isinstance(s, bool) or isinstance(s, str) or isinstance(s, int):
        return s
    if isinstance(s, float):
        return bits(s)
    if isinstance(s, list) or isinstance(s, tuple):
        return [tla(x) for x in s]
    return {k: tla(v) for k, v in s.items()}


def settings(s, ref, judge):
    e = {k: tla(s[k]) for k in ("u", "dt", "end", "field", "model", "pair", "track", "frac", "emin")}
    e["src"] = [tla({k: p[k] for k in ("who", "num", "out", "exact", "e", "x", "dir")}) for p in s["src"]]
    e["hist"] = [tla({k: h[k] for k in ("name", "who", "what", "time", "lo", "hi", "bins")}) for h in s["hist"]]
    e["ref"] = {k: ref[k] for k in ("time", "length", "efield", "bfield", "energy")}
    e["judge"] = list(judge)
    return e


def campaign(c, exe, dump, ref, runs, tdir, judge, what, env=None, tag="r", module="CascadeRun", write=ini_text):
    """Runs the program for every run with constant draws and has TLC compare
    each with the machine."""
    jobs, sis, old = [], [], None
    for i, r in enumerate(runs):
        d = os.path.join(c.work, tag, str(i))
        os.makedirs(os.path.join(d, "sub"))
        s = si(r, ref)
        s["file"] = c.rng.choice(["out.h5"] * 4 + ["results.hdf5", "run 7.h5", "sub/Out.H5", "noext"])
        with open(os.path.join(d, "in.ini"), "w", newline="") as f:
            f.write(write(s))
        sis.append(s)
        jobs.append((d, dict(env or {}, QED_TABLES_PATH=tdir, VERIF_RNG_CONST=hx(r["u"])), s["file"], [h["name"] for h in r["hist"]]))
        # the file of an earlier run is replaced
        if i == 0:
            run([exe, "in.ini"], cwd=d, timeout=60, env=dict(os.environ, **jobs[0][1]))
            if os.path.exists(os.path.join(d, s["file"])):
                with open(os.path.join(d, s["file"]), "rb") as f:
                    old = f.read()
        elif old and c.rng.random() < 0.2:
            with open(os.path.join(d, s["file"]), "wb") as f:
                f.write(old)
    outs = execute(c, [exe], jobs, dump)
    obs = [dict(settings(s, ref, judge), out=o) for s, o in zip(sis, outs)]
    c.behaviours(module, obs, what, env={"TABLES": tdir + ".json"}, describe=lambda o: describe_run(o))
    for d, *_ in jobs:
        shutil.rmtree(d, ignore_errors=True)
    return obs


def describe_run(o):
    return {"model": o["model"], "pair": o["pair"], "track": o["track"], "src": shorten(o["src"]), "hist": shorten(o["hist"]),
            "out": {"status": o["out"]["status"], "text": o["out"].get("text", ""), "extra": o["out"]["extra"],
                    "rows": [[len(s[k]) for k in ("prim", "ele", "pos", "pho")] for s in o["out"]["src"]], "tracks": [len(t["t"]) for t in o["out"]["tracks"]]}}
