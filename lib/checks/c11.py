"""C11: several processes (spec Gather, GatherGen, MpiTrace)."""
import mpi
from manager import *


def build_mpi(c, name, flags=(), shim=True):
    fl = ["-DUSEMPI", "-I" + os.path.join(HARN, "mpi")] + list(flags) + (SHIM if shim else [])
    src = main_sources() + [os.path.join(HARN, "mpishim.cpp")] + ([os.path.join(HARN, "rngshim.cpp")] if shim else [])
    return c.build.link(name, src, flags=fl, libs=HDFLIB)


def schedules(c, n, count):
    """Orders in which the ranks act, from the specification."""
    r = c.model("GatherGen", "GatherGen%d" % n, args=["-simulate", "num=%d" % count, "-depth", "2000", "-seed", str(c.seed)], workers=1)
    return [[int(x) for x in re.findall(r"\d+", s.split("CMD", 1)[1])] for s in r.tagged("CMD")]


def start(exe, d, env, n, us):
    def go(i, fd):
        e = dict(os.environ, OMP_WAIT_POLICY="passive")
        e.update(env)
        e.update(VERIF_MPI_FD=str(fd), VERIF_MPI_RANK=str(i), VERIF_MPI_SIZE=str(n))
        if us:
            e["VERIF_RNG_CONST"] = hx(us[i])
        return subprocess.Popen([exe, "in.ini"], cwd=d, env=e, pass_fds=[fd], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return go


def ranks_run(exe, job):
    d, env, n, us, kw = job
    return mpi.Broker(n, start(exe, d, env, n, us), **kw).run()


def play_ranks(c, exe, jobs, dump):
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(lambda j: ranks_run(exe, j), jobs))
    out = dump_files(dump, [os.path.join(j[0], "out.h5") for j in jobs])
    return res, out


def policy(r, n, words):
    k = r.random()
    kw = {"seed": r.randrange(1 << 30), "eager": r.choice([0, 0.3, 0.5, 0.8, 1, 1])}
    if k < 0.6 and words.get(n):
        kw["word"] = r.choice(words[n])
    elif k < 0.8:
        kw["last"] = r.randrange(n)
    elif k < 0.95:
        kw["first"] = r.randrange(n)
    return kw


def main(c):
    r, ref = c.rng, reference_units(c)
    for cfg in (None, "GatherPair", "GatherWaits", "GatherHists") + (("GatherEager", "GatherDeep") if c.thorough else ()):
        c.model("Gather", cfg)
    if c.model("Gather", "GatherNoBarrier", expect_ok=False).rc == 0:
        raise CheckError("the specification of histograms on ranks does not need the barrier")
    words = {n: schedules(c, n, c.n(60, 600)) for n in (2, 3, 4, 5)}
    dump = build_dump(c)
    tdir = os.path.join(c.work, "tables")
    t = write_wide(r, tdir)

    # constant draws: what each rank writes alone, merged
    alone = build_main(c)
    exes = [(build_mpi(c, "qedcasc-mpi"), 1), (build_mpi(c, "qedcasc-mpi-omp", OMP), 2)]
    obs, ajobs, mjobs = [], [], {0: [], 1: []}
    for i in range(c.n(110, 1500)):
        n = r.choice([1, 2, 2, 3, 3, 4, 5])
        src = [(r.choice(SPECIES), r.choice([1, 1, 2, 3, 5]), r.random() < 0.75, r.random() < 0.3) for _ in range(r.choice([1, 1, 2, 3]))]
        hist = [(r.choice(SPECIES), r.choice(["energy", "x", "y", "z", "px", "py", "pz"]), r.choice([0, 1, 2, 50]), r.choice([2, 3, 5, 9])) for _ in range(r.choice([0, 1, 2, 3, 4]))]
        run_ = make_run(r, t, src, model=r.choice(MODELS + ("Quantum", "Quantum")), pair=r.random() < 0.7, track=r.random() < 0.2, steps=r.choice([0.5, 1.5, 2.5, 3.5]),
                        hist=hist, kind=r.choice(["static", "static", "none"]), rate=r.choice([0.5, 1, 1.5]))
        us = [r.choice([run_["u"], r.uniform(0.15, 0.48), r.uniform(0.52, 0.85), r.uniform(0.52, 0.85)]) for _ in range(n)]
        s = si(run_, ref)
        names = [h["name"] for h in run_["hist"]]
        for k in range(n):
            d = os.path.join(c.work, "a%d" % i, str(k))
            os.makedirs(d)
            with open(os.path.join(d, "in.ini"), "w") as f:
                f.write(ini_text(dict(s, track=False)))
            ajobs.append((d, {"QED_TABLES_PATH": tdir, "VERIF_RNG_CONST": hx(us[k])}, "out.h5", names))
        d = os.path.join(c.work, "m%d" % i)
        os.makedirs(d)
        with open(os.path.join(d, "in.ini"), "w") as f:
            f.write(ini_text(s))
        b = 1 if r.random() < 0.25 else 0
        env = {"QED_TABLES_PATH": tdir, "OMP_NUM_THREADS": str(r.choice([2, 3]))}
        mjobs[b].append((i, (d, env, n, us, policy(r, n, words))))
        obs.append({"op": "mpi", "mode": "merge", "ranks": n, "names": names, "what": describe_settings(s, n, us)})
    outs = iter(execute(c, [alone], ajobs, dump))
    for o in obs:
        o["alone"] = [{k: x[k] for k in ("src", "hist", "status")} for x in (next(outs) for _ in range(o["ranks"]))]
    for b in (0, 1):
        attach(c, obs, exes[b][0], mjobs[b], dump)
    c.judge("MpiTrace", [strip(o) for o in obs], "merged runs", describe=lambda o: o["what"])

    # the program's own draws
    exe = build_mpi(c, "qedcasc-mpi-plain", shim=False)
    obs, jobs = [], []
    for i in range(c.n(40, 400)):
        n = r.choice([2, 3, 4, 5])
        src = [(r.choice(SPECIES), r.choice([1, 2, 5, 12]), True, r.random() < 0.6) for _ in range(r.choice([1, 1, 2]))]
        hist = [(r.choice(SPECIES), "energy", 0, r.choice([2, 5])) for _ in range(r.choice([0, 1, 3]))]
        run_ = make_run(r, t, src, model="Quantum", pair=r.random() < 0.5, track=False, steps=2.5, hist=hist, kind="static", rate=r.choice([0.5, 1]), emin=0, frac=1)
        for h in run_["hist"]:
            h["lo"], h["hi"] = -1e12, 1.1e12
        s = si(run_, ref)
        d = os.path.join(c.work, "p%d" % i)
        os.makedirs(d)
        with open(os.path.join(d, "in.ini"), "w") as f:
            f.write(ini_text(s))
        jobs.append((i, (d, {"QED_TABLES_PATH": tdir}, n, None, policy(r, n, words))))
        obs.append({"op": "mpi", "mode": "random", "ranks": n, "names": [h["name"] for h in run_["hist"]], "nums": [x[1] for x in src], "drawn": [x[3] for x in src],
                    "charges": [{"Electron": -1, "Positron": 1, "Photon": 0}[x[0]] for x in src],
                    "counted": [sum(x[1] for x in src if x[0] == h["who"]) for h in run_["hist"]], "what": describe_settings(s, n, [])})
    attach(c, obs, exe, jobs, dump)
    c.judge("MpiTrace", [strip(o) for o in obs], "ranks with their own draws", describe=lambda o: o["what"])
    c.assumptions = ["the broker's rules of message passing are those of MPI as in spec/Gather", "histograms of a run are in the order of their times"]


def describe_settings(s, n, us):
    return {"ranks": n, "u": us, "model": s["model"], "pair": s["pair"], "track": s["track"], "steps": s["steps"], "src": [[p[k] for k in ("who", "num", "out", "exact")] for p in s["src"]],
            "hist": [[h[k] for k in ("who", "what", "when", "bins")] for h in s["hist"]]}


def strip(o):
    return {k: v for k, v in o.items() if k != "names"}


def attach(c, obs, exe, jobs, dump):
    res, dumps = play_ranks(c, exe, [j for _, j in jobs], dump)
    for (i, j), (why, codes), dmp in zip(jobs, res, dumps):
        o = read_out(dmp, obs[i]["names"]) if dmp["open"] else {"src": [], "hist": []}
        obs[i]["out"] = {"status": 0 if dmp["open"] else 2000, "src": o["src"], "hist": o["hist"]}
        obs[i]["why"] = why
        obs[i]["codes"] = [x if x >= 0 else 1000 - x for x in codes]
        obs[i]["what"] = dict(obs[i]["what"], schedule={k: v for k, v in j[4].items()})
        shutil.rmtree(j[0], ignore_errors=True)
