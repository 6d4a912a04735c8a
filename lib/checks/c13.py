"""C13: reading the input file (spec InputFile, Input, InputGen, InputTrace)."""
from inputs import *
import runs, tables


def main(c):
    exe, ref = build_input(c), runs.reference_units(c)
    texts = c.model("InputGen", c.n("InputGen", "InputDeep")).texts("CMD")
    if len(texts) < 500:
        raise CheckError("InputGen made no files")
    c.rng.shuffle(texts)
    parse_all(c, exe, texts[:c.n(700, 8000)], "files of InputGen", ref)
    parse_all(c, exe, [render(c.rng, settings_lists(c.rng)) for _ in range(c.n(500, 6000))], "random files", ref)
    # the example of the repository, as it is, without each of its lines, and
    # laid out in other ways
    path = os.path.join(REPO, "example", "example.ini")
    if os.path.exists(path):
        lines = open(path).read().splitlines()
        keep = [i for i, x in enumerate(lines) if x.strip() and x[0] not in "[#;"]
        text = "\n".join(lines) + "\n"
        plain = "\n".join(x for x in lines if x[:1] not in "#;")
        less = ["\n".join(lines[:i] + lines[i + 1:]) + "\n" for i in keep]
        parse_all(c, exe, [text] + less + [render(c.rng, sections_of(plain)) for _ in range(c.n(60, 600))], "the example", ref)
    # from the file to the simulation: the program itself
    prog, dump, r = runs.build_main(c), runs.build_dump(c), c.rng
    tdir = os.path.join(c.work, "tables")
    tables.write_tables(r, tdir, neta=6, nchi=5, nh=6, nt=6, ns=6, t10=(0, 1.5))
    t = tables.tables_json(tdir, tdir + ".json")
    todo = []
    for _ in range(c.n(40, 300)):
        src = [(r.choice(runs.SPECIES), r.randrange(1, 3), r.random() < 0.8, False) for _ in range(r.randrange(1, 4))]
        hist = [(r.choice(runs.SPECIES), r.choice(["energy", "X", "py", "Z"]), r.choice([0, 0.5, 1.5, 2.5, 99]), r.randrange(2, 30)) for _ in range(r.randrange(3))]
        todo.append(runs.make_run(r, t, src, model=r.choice(runs.MODELS), pair=r.random() < 0.6, track=r.random() < 0.5, steps=r.choice([1.5, 2.5, 3.5]),
                                  hist=hist, kind=r.choice(["static", "plane", "gaussian", "focusing"])))
    runs.campaign(c, prog, dump, ref, todo, tdir, ["tables", "tracks", "hist"], "runs from files written in any way",
                  write=lambda s: render(r, sections_of(runs.ini_text(s))))
    # the spread of beams
    texts = [render(r, beam_file(r, ref, c.n(600, 2000))) for _ in range(c.n(16, 60))]
    jobs = []
    for i, x in enumerate(texts):
        d = os.path.join(c.work, "beam", str(i))
        os.makedirs(d)
        with open(os.path.join(d, "in.ini"), "w", newline="") as f:
            f.write(x)
        jobs.append((d, {"QED_TABLES_PATH": tdir, "VERIF_RNG_SEED": str(c.seed * 1000 + i)}, "out.h5", []))
    obs = [dict(op="beam", lines=x.splitlines(), status=o["status"], src=o["src"]) for x, o in zip(texts, runs.execute(c, [prog], jobs, dump))]
    refp = os.path.join(c.work, "ref.ndjson")
    c.judge("BeamTrace", obs, "beams as asked for", env={"REF": refp})
    shutil.rmtree(os.path.join(c.work, "beam"))
    c.assumptions = ["lines of an input file are shorter than the documented limit of 197 characters, names shorter than 50",
                     "an indented line continues the entry above it, as the reader documents", "beams are accepted within six standard deviations"]
