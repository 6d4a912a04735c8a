"""C28: runs that follow each other in a directory (specs Rerun, RerunTrace)."""
import hashlib, random
from checks.c26 import LIMIT, log_of, status, text_of
from outputs import *
from runs import *

POINT = {"read": ["input open 1", "input read 1"], "told": ["table open 1", "table read 1", "table open 2"], "judged": ["out open 1", "out open 1"],
         "opened": ["out write 1"], "written": ["out close 1"]}


def digest(b):
    return hashlib.sha1(b).hexdigest()[:16]


class World:
    """Four inputs, the last of which is refused, and the files around them."""

    def __init__(self, c, exe, dump, shim, t, tdir, ref, n):
        r = c.rng
        self.exe, self.dump, self.shim, self.tdir, self.n = exe, dump, shim, tdir, n
        self.top = os.path.join(c.work, "world%d" % n)
        hist = lambda k: [(r.choice(SPECIES), r.choice(["energy", "x", "pz"]), r.choice([0, 1, 99]), r.choice([2, 5, 40])) for _ in range(k)]
        a, b = r.choice([("a.h5", "b.h5"), ("out.h5", "sub/out.h5"), ("sub/a.h5", "a.h5"), ("data.h5", "data.h5.h5")])
        self.outs = [a, a, b]
        kinds = [dict(src=[("Electron", 3, True, False), ("Photon", 2, True, True)], track=True, steps=3.5, hist=hist(r.choice([3, 12])), pair=True),
                 dict(src=[(r.choice(SPECIES), 1, r.random() < 0.5, False)], track=False, steps=0.5, hist=hist(r.choice([0, 1])), pair=r.random() < 0.5)]
        if r.random() < 0.3:
            kinds[0]["src"][1] = ("Photon", 400, True, True)
        pick = [0, 1, r.choice([0, 1])]
        if r.random() < 0.5:
            pick[:2] = [1, 0]
        self.runs = []
        for k in pick:
            run_ = make_run(r, t, model=r.choice(MODELS), **kinds[k])
            self.runs.append((si(run_, ref), run_["u"]))
        self.texts = [ini_text(s, o) for (s, u), o in zip(self.runs, self.outs)]
        # an input that is refused, and why
        good = ini_text(self.runs[0][0], a)
        first = self.runs[0][0]
        refusals = [("field_type = " + first["field"]["kind"], "field_type = sttatic"), ("radiation_model = " + first["model"], "radiation_model = Quantm"),
                    ("units = SI", "units = SU"), ("number_particles = ", "number_particles = -"), ("bins = ", "bins = -"), ("time_end = ", "time_ends = "), ("time_step = ", "time_step = -"),
                    ("time_step = ", "time_stp = "), ("[General]", "[Generals]"), ("position = [", "position = [1 "), ("direction = [", "direction = [1, ")]
        old, new = r.choice([x for x in refusals if x[0] in good])
        self.why = new
        self.texts.append(good.replace(old, new, 1))
        self.others = {"notes.txt": b"kept\n", ".hidden": b"", "other.h5": bytes(range(256)) * 9, "a.h5.bak": b"older", "sub/kept.h5": b"\x89HDF\r\n\x1a\n", "input-check.txt.old": b"x",
                       "in1.ini.txt": b"[General]\n"}
        self.count = 0
        self.fresh = []
        for i in (1, 2, 3):
            d = self.make()
            log = os.path.join(self.top, "log%d" % i)
            rc = self.go(d, i, log=log)
            f = {x["name"]: x for x in self.look(d)}
            o = self.outs[i - 1]
            if rc or o not in f or "input-check.txt" not in f:
                c.give_up("runs in directories of their own", "a run leaves its output and its report", {"status": rc, "found": sorted(f)})
            ops = [x[1] for x in log_of(log) if x[0] == "out"]
            self.fresh.append({"out": o, "text": f[o]["text"], "report": f["input-check.txt"]["raw"], "writes": ops.count("write")})
            shutil.rmtree(d)
        shutil.rmtree(self.top)

    def make(self, tag=None):
        self.count += 1
        d = os.path.join(self.top, str(tag if tag is not None else "f%d" % self.count))
        os.makedirs(os.path.join(d, "sub"))
        for i, x in enumerate(self.texts):
            with open(os.path.join(d, "in%d.ini" % (i + 1)), "w") as f:
                f.write(x)
        for n, b in self.others.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(b)
        return d

    def go(self, d, i, plan=None, log=None):
        u = self.runs[min(i, 3) - 1][1]
        e = dict(os.environ, QED_TABLES_PATH=self.tdir, VERIF_RNG_CONST=hx(u), OMP_NUM_THREADS="1", LD_PRELOAD=self.shim)
        if plan:
            e["VERIF_FAULT"] = plan
        if log:
            e["VERIF_FAULT_LOG"] = log
        return status(run(LIMIT + [self.exe, "in%d.ini" % i], cwd=d, env=e, timeout=60).returncode)

    def look(self, d):
        out = []
        for top, ds, fs in os.walk(d):
            for n in sorted(fs + ds):
                p = os.path.join(top, n)
                name = os.path.relpath(p, d)
                if os.path.isdir(p):
                    out.append({"name": name + "/", "raw": "", "text": ""})
                    continue
                with open(p, "rb") as f:
                    raw = digest(f.read())
                text = digest(text_of(self.dump, p).encode()) if name in self.outs and os.path.getsize(p) else ""
                out.append({"name": name, "raw": raw, "text": text if text != digest(b"") else ""})
        return sorted(out, key=lambda x: x["name"])

    def play(self, hist, seed):
        r = random.Random(seed)
        d = self.make("h%d" % seed)
        first = self.look(d)
        steps = []
        for ev, i, at in hist:
            plan, rc = None, 0
            if ev == "spoil":
                n = self.outs[0] if at == "a" else "input-check.txt"
                with open(os.path.join(d, n), "wb") as f:
                    f.write(r.choice([b"", b"#", bytes(r.randrange(256) for _ in range(300)), b"\n" * 70000, b"\x89HDF\r\n\x1a\n" + b"\0" * 3000]))
                rc = 0
            else:
                if ev == "kill":
                    if at == "writing":
                        w = max(2, self.fresh[min(i, 3) - 1]["writes"])
                        plan = "out write %d 0 %s" % (r.randrange(2, w + 1), r.choice(["die", "torn"]))
                    else:
                        plan = r.choice(POINT[at]) + " 0 " + ("torn" if at == "opened" and r.random() < 0.5 else "die")
                rc = self.go(d, i, plan)
            steps.append({"ev": ev, "i": i, "at": at, "plan": plan or "", "status": rc, "files": self.look(d)})
        shutil.rmtree(d)
        return {"op": "history", "first": first, "fresh": self.fresh, "refusal": self.why, "steps": steps}


def parse(hist):
    return [(a, int(i), p) for a, i, p in re.findall(r'<<"(\w+)", (\d+), "(\w*)">>', hist.replace('\\"', '"'))]


def describe(o):
    return {"refusal": o["refusal"], "steps": [(s["ev"], s["i"], s["at"], s["plan"], s["status"]) for s in o["steps"]], "outs": [f["out"] for f in o["fresh"]]}


def main(c):
    r, ref = c.rng, reference_units(c)
    for k in ("RerunAdds", "RerunContinues", "RerunHasty"):
        if c.model("Rerun", k, expect_ok=False).rc == 0:
            raise CheckError("the specification of repeated runs allows " + k)
    c.model("Rerun", "RerunDeep")
    hist = [parse(p) for p in c.model("Rerun").tagged("CMD")]
    if len(hist) < 1000:
        raise CheckError("Rerun made no histories")
    shim = c.build.link("faults", [os.path.join(HARN, "faults.cpp")], shared=True, libs=["-ldl"])
    exe, dump = build_main(c), build_dump(c)
    tdir = os.path.join(c.work, "tables")
    tables.write_tables(r, tdir, neta=4, nchi=3, nh=3, nt=4, ns=4, t10=(0, 1.5))
    t = tables.tables_json(tdir, tdir + ".json")
    worlds = [World(c, exe, dump, shim, t, tdir, ref, n) for n in range(c.n(16, 40))]
    jobs = []
    for k in range(c.n(480, 6000)):
        # two histories and a run of each output after them
        h = r.choice(hist) + r.choice(hist) if r.random() < 0.3 else list(r.choice(hist))
        h += [("run", i, "") for i in r.sample([1, 2, 3], 2)]
        jobs.append((worlds[k % len(worlds)], h, r.randrange(1 << 40)))
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        obs = list(ex.map(lambda j: j[0].play(j[1], j[2]), jobs))
    kills = [s for o in obs for s in o["steps"] if s["ev"] == "kill"]
    c.cov["kills"] = len(kills)
    c.cov["kills_met"] = sum(s["status"] == 1009 for s in kills)
    if sum(s["status"] == 1009 for s in kills) < len(kills) // 4:
        raise CheckError("runs could not be killed")
    c.judge("RerunTrace", obs, "histories of a directory", describe=describe)
    c.assumptions = ["a kill is met at an operation on a file (before it, or in the middle of a write); what was written before it is on the disk",
                     "constant draws, one thread, so that a run is determined by its input"]
