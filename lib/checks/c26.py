"""C26: faults of files (specs Durable, FaultGen, FaultTrace, ShortTrace)."""
import mpi
from checks.c11 import build_mpi, policy
from outputs import *
from runs import *

LIMIT = ["prlimit", "--as=3000000000"]
NUMERIC = re.compile(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$")


def text_of(dump, path):
    """What an output file holds, as text; nothing if it is not a good file."""
    r = run([dump, path], timeout=60)
    return r.stdout.decode(errors="replace").replace(path, "") if r.returncode == 0 else ""


def status(rc):
    return 3000 if rc == -999 else rc if rc >= 0 else 1000 - rc


def log_of(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x.split() for x in f]


class Play:
    """Something that is run again and again with one thing going wrong."""

    def __init__(self, c, dump, shim, name, exe, env, files, stdin=None, args=()):
        self.c, self.dump, self.shim, self.name, self.exe, self.env, self.files, self.stdin, self.args = c, dump, shim, name, exe, env, files, stdin, list(args)
        self.at, self.text = 0, None
        o, self.text = self.go()
        if o["status"] or not self.text:
            c.give_up("runs without faults", "a run in which nothing fails ends normally", {"run": name, "status": o["status"]})
        n = {}
        for a, b, how in o["ev"]:
            n[a, b] = n.get((a, b), 0) + 1
        self.counts = [{"run": name, "class": a, "kind": b, "n": k} for (a, b), k in sorted(n.items())]
        self.clean = dict(o, same=True, said=o["said"])

    def go(self, plan=None):
        self.at += 1
        d = os.path.join(self.c.work, "play", self.name, str(self.at))
        os.makedirs(d)
        for f, t in self.files.items():
            with open(os.path.join(d, f), "w") as out:
                out.write(t)
        e = dict(os.environ, **self.env)
        e.update(LD_PRELOAD=self.shim, VERIF_FAULT_LOG=os.path.join(d, "log"))
        if plan:
            e["VERIF_FAULT"] = plan
        r = run(LIMIT + [self.exe] + self.args, cwd=d, env=e, timeout=60, input=self.stdin.encode() if self.stdin else None)
        rc = status(r.returncode)
        if rc in (90, 91):
            raise CheckError("the stand-in for file operations failed: " + r.stderr.decode(errors="replace")[-300:])
        said = bool(r.stderr.strip())
        if self.stdin and rc == 0:
            # the session ran in a process of its own
            o = [json.loads(x) for x in r.stdout.decode().splitlines()]
            rc = o[0]["status"] if o and o[0]["op"] == "session" else 2000
            said = True
        text = text_of(self.dump, os.path.join(d, "out.h5")) if rc == 0 else ""
        o = {"ev": log_of(os.path.join(d, "log")), "status": rc, "said": said}
        shutil.rmtree(d)
        return o, text

    def fault(self, plan):
        o, text = self.go(plan)
        return dict(o, same=text == self.text, run=self.name, plan=plan)


class RanksPlay(Play):
    """The same of a run on several ranks; a plan concerns one of them."""

    def __init__(self, c, dump, shim, name, exe, env, files, us, schedule):
        self.c, self.dump, self.shim, self.name, self.exe, self.env, self.files, self.us, self.schedule = c, dump, shim, name, exe, env, files, us, schedule
        self.at, self.text = 0, None
        o, self.text = self.go()
        if o["status"] or not self.text:
            c.give_up("runs without faults", "a run in which nothing fails ends normally", {"run": name, "status": o["status"]})
        n = {}
        for k, log in enumerate(self.logs):
            for a, b, how in log:
                n[k, a, b] = n.get((k, a, b), 0) + 1
        self.counts = [{"run": "%s@%d" % (name, k), "class": a, "kind": b, "n": m} for (k, a, b), m in sorted(n.items())]
        self.clean = dict(o, same=True)

    def go(self, plan=None):
        self.at += 1
        d = os.path.join(self.c.work, "play", self.name, str(self.at))
        os.makedirs(d)
        for f, t in self.files.items():
            with open(os.path.join(d, f), "w") as out:
                out.write(t)
        n = len(self.us)

        def begin(i, fd):
            e = dict(os.environ, OMP_WAIT_POLICY="passive", OMP_NUM_THREADS="1", **self.env)
            e.update(VERIF_MPI_FD=str(fd), VERIF_MPI_RANK=str(i), VERIF_MPI_SIZE=str(n), VERIF_RNG_CONST=hx(self.us[i]),
                     LD_PRELOAD=self.shim, VERIF_FAULT_LOG=os.path.join(d, "log%d" % i))
            if plan and plan[0] == i:
                e["VERIF_FAULT"] = plan[1]
            with open(os.path.join(d, "err%d" % i), "w") as err:
                return subprocess.Popen(LIMIT + [self.exe, "in.ini"], cwd=d, env=e, pass_fds=[fd], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err)
        why, codes = mpi.Broker(n, begin, **self.schedule).run()
        if any(x in (90, 91) for x in codes):
            raise CheckError("the stand-in for file operations failed")
        rc = 0 if why == "" else 1 if why in ("a rank fails", "a rank ends without MPI_Finalize") else 3000
        self.logs = [log_of(os.path.join(d, "log%d" % i)) for i in range(n)]
        said = any(os.path.getsize(os.path.join(d, "err%d" % i)) for i in range(n))
        text = text_of(self.dump, os.path.join(d, "out.h5")) if rc == 0 else ""
        o = {"ev": [x for log in self.logs for x in log], "status": rc, "said": said}
        shutil.rmtree(d)
        return o, text

    def fault(self, plan):
        k, p = plan
        o, text = self.go((k, p))
        return dict(o, same=text == self.text, run=self.name, plan="rank %d: %s" % (k, p))


def main(c):
    r, ref = c.rng, reference_units(c)
    c.model("Durable", c.n("Durable", "DurableDeep"))
    for k in ("DeafRead", "DeafWrite", "DeafClose"):
        if c.model("Durable", "Durable" + k, expect_ok=False).rc == 0:
            raise CheckError("the specification of files allows " + k)
    shim = c.build.link("faults", [os.path.join(HARN, "faults.cpp")], shared=True, libs=["-ldl"])
    exe, dump, out = build_main(c), build_dump(c), build_output(c)
    small, large = os.path.join(c.work, "small"), os.path.join(c.work, "large")
    tables.write_tables(r, small, neta=4, nchi=3, nh=3, nt=4, ns=4, t10=(0, 1.5))
    tables.write_tables(r, large, neta=40, nchi=30, nh=300, nt=500, ns=30, t10=(0, 1.5))
    plays = []

    def add(run_, tdir, pad=0):
        s = si(run_, ref)
        ini = ini_text(s).replace("\n[", "\n" + "; and so on and so forth\n" * pad + "[")
        plays.append(Play(c, dump, shim, "run%d" % len(plays), exe, {"QED_TABLES_PATH": tdir, "VERIF_RNG_CONST": hx(run_["u"]), "OMP_NUM_THREADS": "1"},
                          {"in.ini": ini}, args=["in.ini"]))
    t = tables.tables_json(small, small + ".json")
    T = tables.tables_json(large, large + ".json")
    hist = lambda n: [(r.choice(SPECIES), r.choice(["energy", "x", "pz"]), r.choice([0, 1, 99]), r.choice([2, 5, 40])) for _ in range(n)]
    add(make_run(r, t, [("Electron", 2, True, False), ("Photon", 3, True, True)], model="Quantum", pair=True, track=True, steps=3.5, hist=hist(2), rate=1), small)
    add(make_run(r, T, [("Electron", 3, True, False)], model=r.choice(MODELS), pair=True, track=False, steps=1.5, hist=hist(9)), large)
    # pieces larger than what the library keeps
    add(make_run(r, t, [("Photon", 1100, True, True)], model="Classical", pair=False, track=False, steps=0.5, kind="none", hist=[("Photon", "energy", 0, 9000)]), small)
    # an input of several blocks
    add(make_run(r, t, [("Electron", 1, True, False), ("Photon", 1, True, False)], model="Quantum", track=True, steps=1.5, hist=hist(3)), small, pad=150)
    for _ in range(c.n(3, 40)):
        src = [(r.choice(SPECIES), r.choice([0, 1, 2, 5]), r.random() < 0.7, False) for _ in range(r.choice([1, 2, 3]))]
        add(make_run(r, t, src, model=r.choice(MODELS), pair=r.random() < 0.5, track=r.random() < 0.5, steps=r.choice([0.5, 1.5, 2.5]), hist=hist(r.choice([0, 1, 3]))), small)
    whole = 4
    for i in range(c.n(24, 200)):
        make = r.choice([random_session, random_session, hist_session, field_session, field_session])
        plays.append(Play(c, dump, shim, "session%d" % i, out, {"QED_TABLES_PATH": small, "VERIF_RNG_CONST": "0.3"}, {}, stdin=make(r, "out.h5") + "\n"))
    ranks = build_mpi(c, "qedcasc-mpi")
    for i in range(c.n(4, 24)):
        n = r.choice([2, 2, 3])
        src = [(r.choice(SPECIES), r.choice([1, 1, 2, 3]), r.random() < 0.75, False) for _ in range(r.choice([1, 1, 2]))]
        run_ = make_run(r, t, src, model=r.choice(MODELS), pair=r.random() < 0.7, track=False, steps=r.choice([0.5, 1.5]), hist=hist(r.choice([0, 1, 2])), rate=1)
        plays.append(RanksPlay(c, dump, shim, "ranks%d" % i, ranks, {"QED_TABLES_PATH": small}, {"in.ini": ini_text(si(run_, ref))}, [run_["u"]] * n, policy(r, n, {})))
    counts = os.path.join(c.work, "counts.ndjson")
    with open(counts, "w") as f:
        for p in plays:
            for x in p.counts:
                f.write(json.dumps(x) + "\n")
    g = c.model("FaultGen", env={"COUNTS": counts})
    plans = {}
    for x in g.tagged("CMD"):
        name, *p = re.match(r'<<"CMD", (.*)>>$', x).group(1).replace('"', "").split(", ")
        plans.setdefault(name, []).append(" ".join(p))
    jobs = []
    for n, p in enumerate(plays):
        mine = sorted(plans[p.name]) if p.name in plans else sorted((k, x) for k in range(len(p.us)) for x in plans.get("%s@%d" % (p.name, k), []))
        if not (c.thorough or n < whole):
            # some of every operation
            keep = {}
            for x in mine:
                keep.setdefault((x[0],) + tuple(x[1].split()[:2]) if type(x) is tuple else tuple(x.split()[:2]), []).append(x)
            mine = [x for ks in keep.values() for x in r.sample(ks, min(len(ks), 6 if len(ks) < 50 else 30))]
        jobs += [(p, x) for x in mine]
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        obs = list(ex.map(lambda j: j[0].fault(j[1]), jobs))
    obs += [dict(p.clean, run=p.name, plan="") for p in plays]
    missed = sum(o["plan"] != "" and all(e[2] in ("done", "none") for e in o["ev"]) for o in obs)
    c.cov["fault_plans"] = len(jobs)
    c.cov["fault_plans_not_met"] = missed
    c.behaviours("FaultTrace", obs, "runs with faults of files",
                 describe=lambda o: {"run": o["run"], "plan": o["plan"], "status": o["status"], "same": o["same"], "said": o["said"]})

    # an output file that cannot be made, an input that cannot be read
    obs = []
    for p in plays[:4]:
        for bad in ("nowhere/out.h5", "."):
            q = Play.__new__(Play)
            q.__dict__.update(p.__dict__, name=p.name + "x", files={"in.ini": p.files["in.ini"].replace("file_name = out.h5", "file_name = " + bad)})
            o, _ = q.go()
            obs.append(dict(o, ev=o["ev"] + [["out", "open", "fail"]], same=False, run=p.name, plan="output to " + bad))
    c.behaviours("FaultTrace", obs, "outputs that cannot be made", describe=lambda o: {k: o[k] for k in ("run", "plan", "status", "said")})

    # damaged tables
    files = ["hsokolov.table", "ksi_sokolov.table", "chimin.table", "pairprod.table", "e_split.table", "epsilon.table", "log_chi.table"]
    shapes = [(small, {"neta": 4, "nchi": 3, "nh": 3, "nt": 4, "ns": 4}), (large, {"neta": 40, "nchi": 30, "nh": 300, "nt": 500, "ns": 30})]
    jobs = []
    base = {}
    for i, (tdir, shape) in enumerate(shapes):
        for pair in (False, True):
            run_ = make_run(r, (t, T)[i], [("Electron", 1, True, False), ("Photon", 1, True, False)], model=r.choice(MODELS), pair=pair, track=False, steps=1.5)
            base[i, pair] = (ini_text(si(run_, ref)), run_["u"])
    def damage(job):
        i, pair, file, at, how, n = job
        tdir, shape = shapes[i]
        d = os.path.join(c.work, "damaged", str(n))
        shutil.copytree(tdir, os.path.join(d, "tables"))
        if file:
            p = os.path.join(d, "tables", file)
            parts = re.split(r"(\s+)", open(p).read().strip())
            words, gaps = parts[::2], parts[1::2] + ["\n"]
            if how == "end":
                words = words[:at]
            elif how == "more":
                words = words + ["7.5"]
            else:
                words[at] = how
            with open(p, "w") as f:
                f.write("".join(a + b for a, b in zip(words, gaps + ["\n"])))
            good = next((k for k, w in enumerate(words) if not NUMERIC.match(w)), len(words))
        ini, u = base[i, pair]
        with open(os.path.join(d, "in.ini"), "w") as f:
            f.write(ini)
        q = run(LIMIT + [exe, "in.ini"], cwd=d, timeout=60, env=dict(os.environ, QED_TABLES_PATH=os.path.join(d, "tables"), VERIF_RNG_CONST=hx(u)))
        rc = status(q.returncode)
        text = text_of(dump, os.path.join(d, "out.h5")) if rc == 0 else ""
        shutil.rmtree(d)
        if not file:
            if rc or not text:
                c.give_up("runs without faults", "a run with whole tables ends normally", {"status": rc})
            return text
        return dict(shape, op="short", file=file, good=good, pair=pair, how=how, at=at, status=rc, named=file.encode() in q.stderr, text=text, of=[i, pair])
    whole = {k: damage(k + ("", 0, "", "base%d%d" % k)) for k in base}
    for i, (tdir, shape) in enumerate(shapes):
        for file in files:
            n = len(open(os.path.join(tdir, file)).read().split())
            ats = range(n) if n <= 20 or c.thorough and n < 700 else [0, 1, 2, 3, 4, n // 2, n - 2, n - 1] + [r.randrange(n) for _ in range(4)]
            for at in ats:
                for pair in (False, True) if at in (0, n - 1) else (True,):
                    jobs.append((i, pair, file, at, "end", len(jobs)))
                    jobs.append((i, pair, file, at, r.choice(["x", "nan", "--1", "#", "e5", "?.5", "inf"]), len(jobs)))
            jobs.append((i, True, file, 0, "more", len(jobs)))
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        obs = list(ex.map(damage, jobs))
    for o in obs:
        o["same"] = o.pop("text") == whole[tuple(o.pop("of"))]
    c.judge("ShortTrace", obs, "damaged tables", describe=lambda o: {k: o[k] for k in ("file", "how", "at", "good", "pair", "status", "named", "same")})
    c.assumptions = ["operations through the C library's open, fopen, read, write, pread, pwrite, ftruncate and close", "the input echo (input-check.txt) is no result"]
