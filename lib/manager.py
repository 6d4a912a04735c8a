"""Sessions with the Python module's run manager."""
import random
from runs import *


def build_module(c, omp, shim=True, jitter=False):
    """The directory with the module built from /repo, by default with scripted
    draws."""
    name = "QEDCascPy" + "-omp" * omp + "-jitter" * jitter + "-plain" * (not shim)
    fl = (SHIM if shim else []) + ["-I/usr/include/python3.12"] + (OMP if omp else [])
    src = [(s, JITTER if jitter else []) for s in repo_sources("Python", *CORE) if os.path.basename(s) != "test.cpp"]
    src += [os.path.join(HARN, f) for f, on in (("rngshim.cpp", shim), ("jitter.cpp", jitter)) if on]
    so = c.build.link(name, src, flags=fl, shared=True)
    d = os.path.join(c.work, name)
    os.makedirs(d, exist_ok=True)
    shutil.copy(so, os.path.join(d, "QEDCascPy.so"))
    return d


def build_package(c, moddir, tdir):
    """The directory with the package around a module, which brings its own tables."""
    d = moddir + "-package"
    p = os.path.join(d, "QEDCascPy")
    shutil.copytree(os.path.join(REPO, "Source/Python/QEDCascPy"), p)
    shutil.copy(os.path.join(moddir, "QEDCascPy.so"), p)
    shutil.copytree(tdir, os.path.join(p, "tables"))
    return d


def play(c, moddir, sess, tdir, limit=60, env=None):
    """Runs sessions: dicts with calls, u, random, seed, omp."""
    e = dict(os.environ, VERIF_LIMIT=str(limit))
    e.pop("QED_TABLES_PATH", None)
    if tdir:
        e["QED_TABLES_PATH"] = tdir
    env = dict(e, **(env or {}))

    def code(x):
        if isinstance(x, float):
            return hx(x)
        if isinstance(x, list):
            return [code(v) for v in x]
        return {k: (v if k in ("events", "threads", "m", "use", "c", "name", "distro") else code(v)) for k, v in x.items()} if isinstance(x, dict) else x

    def one(part):
        text = "".join(json.dumps({"u": hx(s["u"]), "random": s["random"], "seed": s["seed"], "calls": [code(x) for x in s["calls"]]}) + "\n" for s in part)
        r = run([PYENV, os.path.join(HARN, "manager.py"), moddir], input=text.encode(), env=env, cwd=c.work, timeout=800)
        if r.returncode and not r.stdout:
            c.give_up("sessions with the run manager", "the module can be used", {"stderr": r.stderr.decode(errors="replace")[-1500:]})
        return [json.loads(x) for x in r.stdout.decode().splitlines()]
    parts = [sess[i::CPUS] for i in range(CPUS)]
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(one, parts))
    out = []
    for part, got in zip(parts, res):
        if len(got) != len(part):
            c.give_up("sessions with the run manager", "every session ends", {"sessions": len(part), "ended": len(got)})
        for s, g in zip(part, got):
            calls = []
            for x, y in zip(s["calls"], g["calls"]):
                x = {k: tla(v) for k, v in x.items() if k not in ("plain", "named")}
                x.update(y)
                calls.append(x)
            out.append({"op": "manager", "omp": s["omp"], "random": s["random"], "u": bits(s["u"]), "made": len(s["calls"]), "calls": calls,
                        "kept": g["kept"], "sig": g["sig"], "exit": g["exit"]})
    return out


def judge_sessions(c, obs, what, ref, tdir):
    refp = os.path.join(c.work, "ref.ndjson")
    with open(refp, "w") as f:
        f.write(json.dumps(ref) + "\n")
    c.judge("RunManagerTrace", obs, what, env={"REF": refp, "TABLES": tdir + ".json"}, describe=describe)


def describe(o):
    t = []
    for x in o["calls"]:
        s = x["c"] + (" %s" % x["name"] if "name" in x else "") + (" %d/%d" % (x["events"], x["threads"]) if x["c"] == "run" else "")
        if "res" in x:
            s += " -> %s" % "/".join(str(x["res"][k]["dims"][0]) for k in ("input", "electrons", "positrons", "photons"))
        t.append(s)
    return {"calls": t, "kept": o["kept"], "sig": o["sig"], "exit": o["exit"], "omp": o["omp"]}


# -------------------------------------------------------------------- worlds
FIELD_NAMES = {"gaussian": ["gaussian", "Gaussian"], "focusing": ["focusing", "Focusing"]}


def world(r, t, ref, spread=False, mixed=None):
    """Settings that matter to each other, in SI units. In a mixed world every
    model is numerically stable; in others the field suits one model."""
    mixed = r.random() < 0.6 if mixed is None else mixed
    model = r.choice(MODELS if mixed else MODELS + ("Quantum", "Quantum"))
    src = [(w, 1, True, False) for w in SPECIES]
    run_ = make_run(r, t, src, model=model, cap="Classical" if mixed else None, track=False, steps=r.choice([1, 1.5, 2.5, 3.5]), kind="gaussian", rate=r.choice([0.5, 1, 2]), emin=0)
    d = run_["src"][0]["dir"]
    g0 = run_["src"][0]["e"]
    for s in run_["src"]:
        s["dir"] = [x * r.choice([1, 2]) + 0.001 * y for x, y in zip(d, rv(r))]
    other = make_field(r, "focusing", field_scale(run_["field"]) / 2, run_["dt"], [d])
    a, b = si(run_, ref), si(dict(run_, field=other), ref)
    T, L, W = (real(ref[k]) for k in ("time", "length", "energy"))
    w = {"u": run_["u"], "dt": a["dt"], "steps": run_["steps"], "gaussian": a["field"], "focusing": b["field"], "src": {s["who"]: s for s in a["src"]}, "frac": run_["frac"],
         "model": model, "models": list(MODELS) if mixed else [model]}
    for s in w["src"].values():
        s["distro"] = r.choice(["mono", "Mono", "gaussian"])
        if spread:
            e = g0 * W
            s["distro"] = r.choice(["gaussian", "Gaussian", "linear"])
            s["esig"] = s["e"] * (r.uniform(0.02, 0.1) if s["distro"].lower() == "gaussian" else r.uniform(1.2, 2))
            s["radius"] = r.choice([0, 1]) * 0.3 * a["dt"] / T * L
            s["tau"] = r.choice([0, 1]) * 0.2 * a["dt"]
            s["div"] = r.choice([0, 0.03])
    return w


def fl(x):
    return [float(v) for v in x] if isinstance(x, list) else float(x)


def call_time(w, dt=1.0):
    return {"c": "time", "dt": w["dt"] * dt, "end": w["dt"] * abs(dt or 1) * w["steps"]}


def call_field(w, kind, name):
    f = w[kind]
    return dict({"c": "field", "name": name}, **{k: fl(f[k]) for k in ("max", "lam", "tau", "waist", "pol", "start", "focus")})


def call_source(w, who, name):
    s = w["src"][who]
    return {"c": "source", "name": name, "distro": s["distro"], "e1": fl(s["e"]), "e2": fl(s["esig"]), "radius": fl(s["radius"]), "tau": fl(s["tau"]), "div": fl(s["div"]),
            "x": fl(s["x"]), "dir": fl(s["dir"])}


def call_run(r, n, threads=1):
    return dict({"c": "run", "events": n, "threads": threads}, **({"plain": True} if threads == 1 and r.random() < 0.3 else {"named": True} if r.random() < 0.3 else {}))


def random_call(r, w, omp):
    """Any call, as a rule a good one."""
    k = r.random()
    bad = r.random() < 0.12
    if k < 0.12:
        return call_time(w, r.choice([0.0, -1.0, -1e-3]) if bad else r.choice([1.0, 1.7, 0.8]))
    if k < 0.26:
        kind = r.choice(["gaussian", "focusing"])
        return call_field(w, kind, r.choice(["static", "plane", "", "GAUSSIAN", "gauss", "focusing "]) if bad else r.choice(FIELD_NAMES[kind]))
    if k < 0.38:
        m = r.choice(w["models"])
        return {"c": "physics", "name": r.choice(["QED", "", "Classic", "quantum ", "CLASSICAL"]) if bad else r.choice([m, m.lower()])}
    if k < 0.52:
        s = r.choice(SPECIES)
        return call_source(w, s, r.choice(["Muon", "", "ELECTRON", "proton", "gamma"]) if bad else r.choice([s, s.lower()]))
    if k < 0.60:
        return {"c": "fraction", "v": r.choice([-0.1, 1.0001, -1e-9, 7.0]) if bad else r.choice([0.0, 1.0, r.uniform(0.05, 0.95)])}
    if k < 0.68:
        return {"c": "pair", "use": r.random() < 0.6}
    if k < 0.74:
        return {"c": "read"}
    th = r.choice([1, 1, 2, 3]) if omp else 1
    if r.random() < 0.1:
        th = r.choice([0, -1, 2, 5])
    return call_run(r, r.choice([-1, -7] if bad else [0, 1, 1, 2, 3]), th)


def write_wide(r, d):
    """Tables that hold whatever any model makes of these worlds."""
    while True:
        tables.write_tables(r, d, t10=(0.5, 2.5), chi10=12.0)
        t = tables.tables_json(d, d + ".json")
        if t["splitx"][-2] > 8:
            return t
