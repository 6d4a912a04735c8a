"""C14: refusals (spec Input, RefusalGen, InputTrace)."""
from inputs import *
import runs, tables


def program(c, exe, tdir, jobs):
    """jobs: (arguments, text of in.ini or None). Runs the program on each in a
    directory of its own."""
    hung = []

    def one(j):
        i, (args, text) = j
        if len(hung) > 6:
            return None
        d = os.path.join(c.work, "p%d" % i)
        os.makedirs(os.path.join(d, "dir.ini"))
        if text is not None:
            with open(os.path.join(d, "in.ini"), "w", newline="") as f:
                f.write(text)
        open(os.path.join(d, "empty.ini"), "w").close()
        r = run([exe] + args, cwd=d, timeout=20, env=dict(os.environ, QED_TABLES_PATH=tdir, VERIF_RNG_CONST=hx(0.3)))
        hang = r.returncode == -999
        hung.extend([i] * hang)
        lines = [] if text is None or args != ["in.ini"] else text.splitlines()
        o = {"op": "main", "args": args, "lines": lines, "exists": len(args) == 1 and os.path.exists(os.path.join(d, args[0])),
             "exit": max(r.returncode, -1), "sig": 0 if hang or r.returncode >= 0 else -r.returncode, "hang": hang,
             "said": len(r.stderr) > 0 or (args == ["-h"] and len(r.stdout) > 0), "ran": os.path.exists(os.path.join(d, "out.h5"))}
        shutil.rmtree(d)
        return o
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        return [o for o in ex.map(one, enumerate(jobs)) if o]


ARGS = [[], ["in.ini", "in.ini"], ["in.ini", "-v"], ["a", "b", "c"], ["-h"], ["in.txt"], ["in.ini.bak"], ["ini"], ["i"], [""], ["in.INI"], ["inini"],
        ["missing.ini"], [".ini"], ["no/such/dir/in.ini"], ["dir.ini"], ["empty.ini"], ["-h", "in.ini"], ["--input=in.ini "], ["in.ini "]]
OK_GOOD = "[General]\nunits = SI\ntime_step = 1e-24\ntime_end = 2e-24\nfile_name = out.h5\n[Field]\nfield_type = static\n[Physics]\nradiation_model = Quantum\n"


def runnable(r, secs):
    """Settings made such that the program, if it runs, is soon done."""
    out = []
    for n, kv in secs:
        kv = list(kv)
        if n == "General":
            kv = [x for x in kv if x[0] not in ("time_end", "time_step", "file_name")] + [("file_name", "out.h5"), ("time_step", "1e-24"), ("time_end", r.choice(["2e-24", "0", "-1", "1e-25"]))]
        if n.startswith("Particle"):
            kv = [x for x in kv if x[0] not in ("number_particles", "energy_mean", "energy_sig", "energy_distribution")] + [("number_particles", str(r.randrange(3))), ("energy_mean", "1e-10")]
        if n == "Physics":
            kv = [x for x in kv if x[0] not in ("sample_fraction", "min_energy")]
        if n == "Field":
            kv = [(k, v) if k not in ("e_max", "wavelength", "duration", "waist", "e_field", "b_field") else (k, "1e-6") for k, v in kv]
        if n.startswith("Histogram"):
            kv = [x for x in kv if x[0] not in ("type", "bins", "min_bin", "max_bin", "name")] + [("type", "energy"), ("bins", "4"), ("max_bin", "9"), ("min_bin", "1"), ("name", n)]
        out.append((n, kv))
    return out


def main(c):
    r, ref = c.rng, runs.reference_units(c)
    exe, prog = build_input(c), runs.build_main(c)
    texts = c.model("RefusalGen").texts("CMD")
    if len(texts) < 900:
        raise CheckError("RefusalGen made %d files" % len(texts))
    tdir = os.path.join(c.work, "tables")
    tables.write_tables(r, tdir, neta=6, nchi=5, nh=6, nt=6, ns=6)
    # the program
    jobs = [(a, OK_GOOD) for a in ARGS] + [(["in.ini"], None)] + [(["in.ini"], x) for x in texts]
    for _ in range(c.n(150, 1500)):
        s = runnable(r, settings_lists(r))
        if r.random() < 0.5:
            for f in r.sample(FAULTS, r.choice([1, 1, 2])):
                s = break_it(r, s, f)
        jobs.append((["in.ini"], render(r, s)))
    refp = os.path.join(c.work, "ref.ndjson")
    with open(refp, "w") as f:
        f.write(json.dumps(ref) + "\n")
    c.judge("InputTrace", program(c, prog, tdir, jobs), "the program on good and bad input", env={"REF": refp})
    # the reader, on more of them
    bad = []
    for _ in range(c.n(400, 5000)):
        s = settings_lists(r)
        for f in r.sample(FAULTS, r.choice([1, 1, 1, 2])):
            s = break_it(r, s, f)
        bad.append(render(r, s))
    parse_all(c, exe, bad, "faulty files", ref)
    c.assumptions = ["a source of no particles is not asked for its particle type", "histograms of unknown quantity or without bins are not part of the property"]
