"""C25: storage (spec Storage, HeapTrace, StorageTrace; Cascade, CascadeRun)."""
from outputs import *
from outputs import judge_sessions as judge_output
from manager import *
import checks.c11 as c11
import hashlib, importlib

PARTS = ["c02", "c03", "c04", "c05", "c06", "c07", "c16", "c17", "c18", "c19", "c23"]


def record(path):
    """The takes and releases recorded, addresses as small numbers."""
    ev, ids, end = [], {}, None
    for line in open(path):
        x = line.split()
        if x[0] == "end":
            end = x
        else:
            ev.append([int(x[0]), ids.setdefault(x[1], len(ids) + 1), min(int(x[2]), 1 << 30), int(x[3])])
    return ev, end


def go(c, exe, s, d, env, trace=False):
    """One run on its own, under the stand-in for the allocator."""
    os.makedirs(d)
    with open(os.path.join(d, "in.ini"), "w") as f:
        f.write(ini_text(s))
    e = dict(os.environ, VERIF_HEAP=os.path.join(d, "heap"), **env)
    if trace:
        e["VERIF_HEAP_TRACE"] = "1"
    q = run([exe, "in.ini"], cwd=d, env=e, timeout=60)
    if q.returncode == 77:
        raise CheckError("the stand-in for the allocator ran out of storage")
    p = os.path.join(d, "heap")
    ev, end = record(p) if os.path.exists(p) else ([], None)
    shutil.rmtree(d)
    return {"status": q.returncode if q.returncode >= 0 else 1000 - q.returncode, "ev": ev, "left": int(end[3]) if end else -1, "faults": int(end[4]) if end else 1,
            "fault": " ".join(end[5:]) if end else ""}


def heap_runs(r, t, n):
    for _ in range(n):
        outs = [r.random() < 0.7 for _ in range(r.choice([1, 2, 3]))]
        src = [(r.choice(SPECIES), r.choice([0, 1, 2, 3, 5]), o, o and r.random() < 0.4) for o in outs]
        hist = [(r.choice(SPECIES), r.choice(["energy", "x", "pz"]), r.choice([0, 1, 99]), r.choice([2, 5, 40])) for _ in range(r.choice([0, 1, 3]))]
        yield make_run(r, t, src, model=r.choice(MODELS + ("Quantum",)), pair=r.random() < 0.7, track=r.random() < 0.5, steps=r.choice([0.5, 1.5, 2.5, 3.5]), hist=hist,
                       kind=r.choice(["static", "static", "none", "gaussian", "focusing", "plane"]), rate=r.choice([0.5, 1, 2]))


def digest(o):
    if o.get("op") == "crash":
        return "crash " + o["why"] + " " + o["stderr"]
    if o.get("op") == "streams":        # which thread draws first is left open
        return "streams"
    return hashlib.sha256(json.dumps(o, sort_keys=True).encode()).hexdigest()[:16]


class Guarded:
    """A check whose commands are also given to the code in filled and guarded
    storage; only whether the two answer alike is judged here."""

    def __init__(self, c, env):
        self.c, self.env, self.pairs = c, env, []

    def __getattr__(self, k):
        return getattr(self.c, k)

    def n(self, quick, thorough):
        # a part of the quick amounts: guarded storage is slow
        return quick if self.c.thorough or not isinstance(quick, int) or quick < 4 else max(2, quick // 4)

    def observe(self, exe, cmds, env=None, **kw):
        a = self.c.observe(exe, cmds, env=env, **kw)
        b = self.c.observe(exe, cmds, env=dict(env or {}, **self.env()), **kw)
        self.pairs.append(([digest(x) for x in a], [digest(x) for x in b]))
        return a

    def observe_par(self, exe, cmds, **kw):
        return Check.observe_par(self, exe, cmds, **kw)

    def judge(self, *a, **k):
        return {}

    def report(self, *a, **k):
        pass


def guarded(c, name, env):
    g = Guarded(c, env)
    keep, c.work = c.work, os.path.join(c.work, name)
    os.makedirs(c.work)
    importlib.import_module("checks." + name).main(g)
    shutil.rmtree(c.work)
    c.work = keep
    out = []
    for a, b in g.pairs:
        for k in range(0, max(len(a), len(b)), 100):
            out.append({"op": "guarded", "of": name, "plain": a[k:k + 100], "guarded": b[k:k + 100]})
    return out


def main(c):
    r, ref = c.rng, reference_units(c)
    c.model("Storage", c.n("Storage", "StorageDeep"))
    for k in ("ForgetBorn", "ForgetRun", "Twice"):
        if c.model("Storage", "Storage" + k, expect_ok=False).rc == 0:
            raise CheckError("the specification of storage allows " + k)
    heap = c.build.link("heap", [os.path.join(HARN, "heap.cpp")], shared=True)
    exe, dump = build_main(c), build_dump(c)
    tdir = os.path.join(c.work, "tables")
    tables.write_tables(r, tdir, neta=4, nchi=3, nh=3, nt=4, ns=4, t10=(0, 1.5))
    t = tables.tables_json(tdir, tdir + ".json")
    env = {"LD_PRELOAD": heap, "QED_TABLES_PATH": tdir}
    strict = lambda: {"LD_PRELOAD": heap, "VERIF_HEAP_ABORT": "1", "VERIF_HEAP_FILL": r.choice(["0xA5", "0xFF", "0x01", "0x3F", "0x40"])}

    # every take and release of a run is a behaviour of the heap
    jobs = []
    for i, run_ in enumerate(heap_runs(r, t, c.n(12, 60))):
        jobs.append((si(run_, ref), os.path.join(c.work, "t%d" % i), dict(env, VERIF_RNG_CONST=hx(run_["u"]))))
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        obs = [{k: o[k] for k in ("ev", "status")} for o in ex.map(lambda j: go(c, exe, *j, trace=True), jobs)]
    c.behaviours("HeapTrace", obs, "what runs take and release", describe=lambda o: {"status": o["status"], "events": len(o["ev"])})

    # what is left does not depend on what happened
    pairs = []
    for i, run_ in enumerate(heap_runs(r, t, c.n(40, 300))):
        a = si(run_, ref)
        b = si(dict(run_), ref)
        a["src"], b["src"] = [dict(s) for s in a["src"]], [dict(s) for s in b["src"]]
        for x, y in zip(a["src"], b["src"]):
            x["num"], y["num"] = r.choice([1, 2, 3]), r.choice([4, 7, 12, 30])
        b["end"] = b["dt"] * r.choice([0.5, 1.5, 4.5])
        pairs.append((a, b, run_["u"]))
    jobs = [(s, os.path.join(c.work, "q%d%d" % (i, k)), dict(env, VERIF_RNG_CONST=hx(u))) for i, (a, b, u) in enumerate(pairs) for k, s in enumerate((a, b))]
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        res = [{k: o[k] for k in ("status", "left", "faults", "fault")} for o in ex.map(lambda j: go(c, exe, *j), jobs)]
    c.judge("StorageTrace", [{"op": "pair", "a": res[2 * i], "b": res[2 * i + 1]} for i in range(len(pairs))], "what runs leave")

    # runs come out as the machine has them whatever storage holds at first
    for i in range(c.n(3, 8)):
        campaign(c, exe, dump, ref, list(heap_runs(r, t, c.n(30, 150))), tdir, ["tables", "tracks", "hist"], "runs in filled and guarded storage", env=strict(), tag="f%d" % i)
    # so do the parts of the program, asked what the other checks ask them
    obs = []
    for name in PARTS:
        obs += guarded(c, name, strict)
    c.judge("StorageTrace", obs, "answers in guarded storage")
    out = build_output(c)
    for make, what in ((random_session, "sessions"), (hist_session, "histograms")):
        judge_output(c, out, dump, make, c.n(60, 600), what + " in guarded storage", what, env=strict())
    # threads
    omp = build_main(c, "qedcasc-omp-heap", OMP)
    campaign(c, omp, dump, ref, list(heap_runs(r, t, c.n(30, 200))), tdir, ["tables", "tracks", "hist"], "threads in guarded storage", env=dict(strict(), OMP_NUM_THREADS="4"), tag="omp")
    # ranks
    mpx = c11.build_mpi(c, "qedcasc-mpi")
    obs, mjobs, ajobs = [], [], []
    for i, run_ in enumerate(heap_runs(r, t, c.n(24, 200))):
        n = r.choice([2, 3, 4])
        s = si(run_, ref)
        us = [r.choice([run_["u"], r.uniform(0.52, 0.85)]) for _ in range(n)]
        names = [h["name"] for h in run_["hist"]]
        for k in range(n + 1):
            d = os.path.join(c.work, "m%d" % i, str(k))
            os.makedirs(d)
            with open(os.path.join(d, "in.ini"), "w") as f:
                f.write(ini_text(dict(s, track=s["track"] and k == n)))
            if k < n:
                ajobs.append((d, {"QED_TABLES_PATH": tdir, "VERIF_RNG_CONST": hx(us[k])}, "out.h5", names))
        mjobs.append((i, (d, dict(strict(), QED_TABLES_PATH=tdir), n, us, c11.policy(r, n, {}))))
        obs.append({"op": "mpi", "mode": "merge", "ranks": n, "names": names, "what": c11.describe_settings(s, n, us)})
    outs = iter(execute(c, [exe], ajobs, dump))
    for o in obs:
        o["alone"] = [{k: x[k] for k in ("src", "hist", "status")} for x in (next(outs) for _ in range(o["ranks"]))]
    c11.attach(c, obs, mpx, mjobs, dump)
    c.judge("MpiTrace", [c11.strip(o) for o in obs], "ranks in guarded storage", describe=lambda o: o["what"])

    # a manager, run after run
    mod = build_module(c, True)
    wide = os.path.join(c.work, "wide")
    t = write_wide(r, wide)
    sess = []
    for _ in range(c.n(24, 200)):
        calls, sets, news = [], [], 0
        ws = [world(r, t, ref) for _ in range(r.choice([1, 2]))]
        made = []
        for w in ws:
            who = r.choice(SPECIES)
            made.append([call_time(w), call_field(w, *r.choice([("gaussian", "gaussian"), ("focusing", "Focusing")])), {"c": "physics", "name": w["model"]},
                         call_source(w, who, who), {"c": "pair", "use": r.random() < 0.7}, {"c": "fraction", "v": w["frac"] * 1.0}])
        threads = r.choice([1, 1, 2])
        for k in [j for _ in range(3 if threads == 1 else 6) for j in range(len(ws))]:
            calls += made[k]
            for _ in range(r.choice([1, 2, 3])):
                # the number of events is a setting here: empty results hold no storage
                calls.append({"c": "run", "events": 6, "threads": threads})
                sets.append(k)
            if r.random() < 0.2:
                calls.append({"c": "new"})
        sess.append((ws[0]["u"], calls, sets, 4 * (threads - 1)))

    def play_heap(part):
        code = lambda x: hx(x) if isinstance(x, float) else [code(v) for v in x] if isinstance(x, list) else {k: code(v) for k, v in x.items()} if isinstance(x, dict) else x
        text = "".join(json.dumps({"u": hx(u), "calls": code(calls)}) + "\n" for u, calls, _, _ in part)
        e = dict(os.environ, QED_TABLES_PATH=wide, LD_PRELOAD=heap, OMP_WAIT_POLICY="passive")
        q = run([PYENV, os.path.join(HARN, "heapmanager.py"), mod, heap], input=text.encode(), env=e, cwd=c.work, timeout=600)
        got = [json.loads(x) for x in q.stdout.decode().splitlines()]
        if len(got) != len(part):
            c.give_up("what a manager holds after each run", "the module can be used", {"stderr": q.stderr.decode(errors="replace")[-1500:]})
        return [dict(g, op="runs", made=len(sets), set=sets, warm=2, slack=slack) for g, (_, _, sets, slack) in zip(got, part)]
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        obs = [o for p in ex.map(play_heap, [sess[i::CPUS] for i in range(CPUS)]) for o in p]
    c.judge("StorageTrace", obs, "what a manager holds after each run")
    c.assumptions = ["objects from operator new; each ends at a closed page, up to 15 bytes before it when its size is odd"]
