"""C15: the run manager's protocol (spec RunManager, RunManagerGen, RunManagerTrace)."""
from manager import *


def concrete(r, w, text):
    """The calls of the specification's path with a world's values."""
    out = []
    for rec in re.findall(r"\[([^\]]*)\]", text):
        f = dict(x.strip().split(" |-> ") for x in rec.split(","))
        k = f["c"].strip('"')
        if k == "time":
            d = int(f["dt"])
            out.append(call_time(w, {0: 0.0, -1: -1.0, 1: 1.0, 2: 1.7}[d]))
        elif k == "field":
            n = f["name"].strip('"')
            out.append(call_field(w, n.lower() if n.lower() in ("gaussian", "focusing") else "gaussian", n))
        elif k == "physics":
            n = f["name"].strip('"')
            m = n.capitalize()
            if m in MODELS and m not in w["models"]:
                n = w["model"].lower() if n == m.lower() else w["model"]
            out.append({"c": "physics", "name": n})
        elif k == "source":
            n = f["name"].strip('"')
            out.append(call_source(w, n.capitalize() if n.capitalize() in SPECIES else "Positron", n))
        elif k == "fraction":
            out.append({"c": "fraction", "v": int(f["v"]) / 10})
        elif k == "pair":
            out.append({"c": "pair", "use": f["use"] == "TRUE"})
        else:
            out.append(call_run(r, int(f["events"]), int(f["threads"])))
    return out


def main(c):
    r, ref = c.rng, reference_units(c)
    tdir = os.path.join(c.work, "tables")
    t = write_wide(r, tdir)
    for omp in (False, True):
        mod = build_module(c, omp)
        paths = c.model("RunManagerGen", None if omp else "RunManagerSerial").texts("CMD")
        if len(paths) < 27000:
            raise CheckError("RunManagerGen made %d sessions" % len(paths))
        r.shuffle(paths)
        worlds = [world(r, t, ref) for _ in range(12)]
        sess = []
        for p in paths[:c.n(900, 12000)]:
            w = r.choice(worlds)
            calls = concrete(r, w, p)
            # what it led to shows in a run
            tail = [call_run(r, r.choice([1, 2]), r.choice([1, 2]) if omp else 1)]
            if r.random() < 0.3:
                tail = [{"c": "read"}] + tail
            if r.random() < 0.2:
                calls = [{"c": "read"}] + calls
            sess.append({"calls": [dict(x, m=1) for x in calls + tail], "u": w["u"], "random": False, "seed": 0, "omp": omp})
        # longer ones, with managers side by side
        for _ in range(c.n(250, 4000)):
            w = r.choice(worlds)
            calls = []
            for m in range(1, r.choice([2, 2, 3, 4])):
                setup = [call_time(w), call_field(w, "gaussian", "gaussian"), {"c": "physics", "name": w["model"]}, call_source(w, "Electron", "Electron")]
                r.shuffle(setup)
                body = setup[:r.choice([4, 4, 4, 3])] + [random_call(r, w, omp) for _ in range(r.randrange(4, 14))]
                body = [dict(x, m=m) for x in body] + [dict(call_run(r, 1), m=m)]
                # interleave with what is there
                pos = sorted(r.randrange(len(calls) + 1) for _ in body)
                for k, (p, x) in enumerate(zip(pos, body)):
                    calls.insert(p + k, x)
            sess.append({"calls": calls, "u": w["u"], "random": False, "seed": 0, "omp": omp})
        obs = play(c, mod, sess, tdir)
        judge_sessions(c, obs, "sessions with the run manager, %s OpenMP" % ("with" if omp else "without"), ref, tdir)
    # the package finds its own tables, wherever others may be
    pkg = build_package(c, mod, tdir)
    other = os.path.join(c.work, "othertables")
    tables.write_tables(r, other, neta=4, nchi=3, nh=3, nt=4, ns=4, t10=(-3, 3))
    sess = []
    for _ in range(c.n(60, 400)):
        w = r.choice(worlds)
        calls = [call_time(w), call_field(w, "gaussian", "gaussian"), {"c": "physics", "name": w["model"]}, call_source(w, "Electron", "Electron")] + [random_call(r, w, True) for _ in range(r.randrange(3))]
        sess.append({"calls": [dict(x, m=1) for x in calls + [call_run(r, r.choice([1, 2]))]], "u": w["u"], "random": False, "seed": 0, "omp": True})
    for where in (None, other):
        judge_sessions(c, play(c, pkg, sess, where), "sessions with the package", ref, tdir)
    c.assumptions = ["draws have one value per session; energies of particles are above their rest energy"]
