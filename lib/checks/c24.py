"""C24: the report of the settings (spec InputFile, Input, Report, ReportTrace)."""
from inputs import *
import runs, tables


def main(c):
    exe, ref, r = build_input(c), runs.reference_units(c), c.rng
    refp = os.path.join(c.work, "ref.ndjson")
    with open(refp, "w") as f:
        f.write(json.dumps(ref) + "\n")
    texts = c.model("InputGen").texts("CMD")
    if len(texts) < 500:
        raise CheckError("InputGen made no files")
    r.shuffle(texts)
    texts = texts[:c.n(400, 3000)] + [render(r, settings_lists(r)) for _ in range(c.n(700, 6000))]
    cmds = []
    for i, t in enumerate(texts):
        d = os.path.join(c.work, "r%d" % i)
        os.makedirs(d)
        with open(os.path.join(d, "in.ini"), "w", newline="") as f:
            f.write(t)
        if r.random() < 0.1:      # an older report is replaced
            with open(os.path.join(d, "input-check.txt"), "w") as f:
                f.write("General input parameters \nUnits       = SI\nTime step   = 12345\n" * r.choice([1, 1, 200]))
        cmds.append("report %s %s" % (os.path.join(d, "in.ini"), d))
    c.judge("ReportTrace", c.observe_par(exe, cmds), "reports of input files", env={"REF": refp})
    for i in range(len(texts)):
        shutil.rmtree(os.path.join(c.work, "r%d" % i))
    # the program itself, whatever comes of the run
    prog = runs.build_main(c)
    tdir = os.path.join(c.work, "tables")
    tables.write_tables(r, tdir, neta=6, nchi=5, nh=6, nt=6, ns=6, t10=(0, 1.5))
    t = tables.tables_json(tdir, tdir + ".json")

    def one(i, text):
        d = os.path.join(c.work, "p%d" % i)
        os.makedirs(d)
        with open(os.path.join(d, "in.ini"), "w", newline="") as f:
            f.write(text)
        q = run([prog, "in.ini"], cwd=d, timeout=60, env=dict(os.environ, QED_TABLES_PATH=tdir, VERIF_RNG_CONST=hx(0.3)))
        p = os.path.join(d, "input-check.txt")
        rep = open(p, errors="replace").read().splitlines() if os.path.exists(p) else []
        shutil.rmtree(d)
        return {"op": "report", "lines": text.splitlines(), "report": rep, "exit": max(q.returncode, -1), "sig": -q.returncode if -99 < q.returncode < 0 else 0}
    todo = []
    for _ in range(c.n(60, 500)):
        src = [(r.choice(runs.SPECIES), r.randrange(0, 3), r.random() < 0.8, False) for _ in range(r.randrange(1, 4))]
        hist = [(r.choice(runs.SPECIES), r.choice(["energy", "X", "py", "Z"]), r.choice([0, 0.5, 1.5, 2.5, 99]), r.randrange(2, 30)) for _ in range(r.randrange(3))]
        run_ = runs.make_run(r, t, src, model=r.choice(runs.MODELS), pair=r.random() < 0.6, track=r.random() < 0.5, steps=r.choice([0.5, 1.5]),
                             hist=hist, kind=r.choice(["static", "plane", "gaussian", "focusing"]))
        todo.append(render(r, sections_of(runs.ini_text(runs.si(run_, ref)))))
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        obs = list(ex.map(lambda x: one(*x), enumerate(todo)))
    c.judge("ReportTrace", obs, "reports of runs", env={"REF": refp})
    c.assumptions = ["texts of settings are of one line and have no equals sign"]
