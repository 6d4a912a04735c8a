"""C12: threads (spec Threads, ThreadsTrace, CascadeRun, RunManagerTrace)."""
from manager import *


def many(r, t, k, model=None, exact=None, conserve=False):
    """A run of many events with more happening in it the smaller its rate."""
    src = [(r.choice(SPECIES if not conserve else ("Electron", "Positron")), r.choice([1, 2, 5, 9, 16, 24]), True, not (exact if exact is not None else r.random() < 0.6))
           for _ in range(r.choice([1, 1, 2]))]
    hist = []
    for _ in range(r.choice([1, 2, 3])):
        hist.append((r.choice(SPECIES), r.choice(["energy", "x", "pz"]), r.choice([0, 50]), r.choice([2, 3, 7])))
    run_ = make_run(r, t, src, model=model or r.choice(MODELS + ("Quantum", "Quantum")), pair=False if conserve else r.random() < 0.7, track=r.random() < 0.7,
                    steps=r.choice([4.5, 7.5]) if conserve else r.choice([0.5, 1, 1.5, 2.5]), hist=hist, kind="static", rate=0.15 if conserve else r.choice([0.5, 1, 2]), emin=0, frac=1 if conserve else None)
    if conserve:
        s = field_scale(run_["field"])
        b = rv(r)
        m = math.sqrt(dot(b, b))
        run_["field"] = {"kind": "static", "e": [0, 0, 0], "b": [x * s / m for x in b]}
    return run_


def dense(r, t):
    """Many short events, all counted in histograms several times."""
    who = r.choice(SPECIES)
    hist = [(who, r.choice(["energy", "x", "pz"]), k, r.choice([1, 2, 3]) + 1) for k in sorted(r.choice([0, 0, 1, 50, 50]) for _ in range(r.randrange(3, 7)))]
    run_ = make_run(r, t, [(who, r.choice([60, 100, 150]), False, False)], pair=False, track=r.random() < 0.3, steps=r.choice([0.5, 1]), hist=hist, kind="none")
    for h in run_["hist"]:
        v = abs(h["lo"]) + abs(h["hi"])
        h["lo"], h["hi"] = -v, 1.1 * v
    return run_


def emitters(r, t):
    """Many like electrons that emit at once: only draws tell them apart."""
    run_ = make_run(r, t, [(r.choice(["Electron", "Positron"]), r.choice([60, 100]), True, False)], model="Quantum", pair=False, track=False, steps=2.5, kind="static", rate=1,
                    emin=0, frac=1)
    return run_


def main(c):
    r, ref = c.rng, reference_units(c)
    c.model("Threads")
    for k in ("AtomicTake", "LockHist", "LockTrack"):
        if c.model("Threads", "Threads" + k, expect_ok=False).rc == 0:
            raise CheckError("the specification of threads does not need " + k)
    if c.thorough:
        c.model("Threads", "ThreadsDeep")
    dump = build_dump(c)
    tdir = os.path.join(c.work, "tables")
    t = write_wide(r, tdir)
    # the program, constant draws: as if one event ran after the other
    exe = build_main(c, "qedcasc-omp", OMP, jitter=True)
    for i, n in enumerate(r.sample([1, 2, 3, 5, 8, 13], c.n(4, 6)) * c.n(1, 4)):
        rs = [many(r, t, i) for _ in range(c.n(16, 40))]
        campaign(c, exe, dump, ref, rs, tdir, ["tables", "tracks", "hist"], "runs on %d threads, constant draws" % n, tag="c%d" % i,
                 env={"OMP_NUM_THREADS": str(n), "VERIF_JITTER": str(r.choice([20, 60, 200])), "VERIF_JITTER_SEED": str(c.seed * 100 + i)})
    for i, n in enumerate([3, 6, 8, 12][:c.n(3, 4)] * c.n(1, 3)):
        rs = [dense(r, t) for _ in range(c.n(10, 30))]
        campaign(c, exe, dump, ref, rs, tdir, ["tables", "tracks", "hist"], "dense histograms on %d threads" % n, tag="d%d" % i,
                 env={"OMP_NUM_THREADS": str(n), "VERIF_JITTER": str(r.choice([20, 200])), "VERIF_JITTER_SEED": str(c.seed * 100 + i)})
    # the program with its own random draws
    exe = build_main(c, "qedcasc-omp-plain", OMP, shim=False, jitter=True)
    obs = []
    for i, n in enumerate(r.sample([2, 3, 4, 6, 8, 11], c.n(5, 6)) * c.n(1, 4)):
        jobs, sis = [], []
        for k in range(c.n(24, 60)):
            run_ = emitters(r, t) if k % 12 == 1 else many(r, t, i, conserve=k % 3 == 0, model="Quantum" if k % 3 == 0 else None)
            for h in run_["hist"]:
                h["lo"], h["hi"] = -1e12, 1.1e12
            d = os.path.join(c.work, "p%d" % i, str(k))
            os.makedirs(d)
            s = si(run_, ref)
            with open(os.path.join(d, "in.ini"), "w") as f:
                f.write(ini_text(s))
            sis.append((s, k % 3 == 0))
            jobs.append((d, {"QED_TABLES_PATH": tdir, "OMP_NUM_THREADS": str(n), "VERIF_JITTER": str(r.choice([20, 60, 200])), "VERIF_JITTER_SEED": str(c.seed * 1000 + 100 * i + k)},
                         "out.h5", [h["name"] for h in run_["hist"]]))
        for (s, whole), o, j in zip(sis, execute(c, [exe], jobs, dump), jobs):
            obs.append(dict(settings(s, ref, []), out=o, whole=whole, op="threads"))
            shutil.rmtree(j[0], ignore_errors=True)
    c.judge("ThreadsTrace", obs, "runs on several threads, random draws", env={"TABLES": tdir + ".json"}, describe=describe_run)
    # the module: run after run on other numbers of threads
    for shim in (True, False):
        mod = build_module(c, True, shim, jitter=True)
        sess = []
        for i in range(c.n(40, 500)):
            w = world(r, t, ref)
            who = r.choice(SPECIES if shim else ("Electron", "Positron"))
            calls = [call_time(w), call_field(w, *r.choice([("gaussian", "gaussian"), ("focusing", "Focusing")])), {"c": "physics", "name": w["model"]},
                     call_source(w, who, who), {"c": "pair", "use": r.random() < 0.5}, {"c": "fraction", "v": w["frac"] * 1.0}]
            for _ in range(r.choice([1, 2, 3])):
                calls.append(call_run(r, r.choice([1, 2, 7, 16, 30]), r.choice([2, 3, 4, 5, 8])))
            sess.append({"calls": [dict(x, m=1) for x in calls], "u": w["u"], "random": not shim, "seed": i, "omp": True})
        o = play(c, mod, sess, tdir, env={"VERIF_JITTER": str(r.choice([40, 150])), "VERIF_JITTER_SEED": str(c.seed)})
        judge_sessions(c, o, "the module on several threads, %s draws" % ("constant" if shim else "random"), ref, tdir)
    c.assumptions = ["schedules are varied by pauses at memory accesses, not enumerated; the specification of the loop is checked for all of them",
                     "histograms of a run are in the order of their times"]
