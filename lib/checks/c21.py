"""C21: whole runs (spec Cascade, CascadeModel, CascadeRun)."""
import random
from runs import *


def main(c):
    c.model("CascadeModel")
    exe, dump, ref = build_main(c), build_dump(c), reference_units(c)
    r = c.rng
    for k in range(c.n(3, 8)):
        d = os.path.join(c.work, "tables%d" % k)
        tables.write_tables(r, d, neta=r.randrange(5, 9), nchi=r.randrange(3, 7), nh=r.randrange(3, 9), nt=r.randrange(4, 9), ns=r.randrange(5, 8), t10=(-0.5, 1) if k % 2 else (0.5, 2.5))
        t = tables.tables_json(d, d + ".json")
        runs = []
        for _ in range(c.n(70, 400)):
            model = r.choice(MODELS)
            src = [(r.choice(SPECIES), r.randrange(1, 3), True, r.random() < 0.3) for _ in range(r.randrange(1, 4))]
            hist = [(r.choice(SPECIES), r.choice(["energy", "X", "y", "Z", "px", "PY", "pz", "Energy"]), r.choice([0, 0.5, 1, 1.5, 2.5, 99]), r.randrange(2, 30)) for _ in range(r.randrange(4))]
            runs.append(make_run(r, t, src, model=model, pair=r.random() < 0.6, track=r.random() < 0.7, steps=r.choice([1.5, 2.5, 3.5, 4.5, 6.7]),
                                 hist=hist, kind=r.choice(["static", "static", "static", "plane", "gaussian", "focusing"])))
            if r.random() < 0.15:
                # sources with the rest energy, or less
                for s in runs[-1]["src"]:
                    if s["who"] != "Photon" and s["exact"]:
                        s["e"] = r.choice([0, 0.5, 1, 1.5])
        campaign(c, exe, dump, ref, runs, d, ["tables", "tracks", "hist"], "whole runs, tables %d" % k, tag="t%d" % k)
    campaign(c, exe, dump, ref, big_runs(r, t, c.n(2, 6)), d, ["tables", "tracks", "hist"], "large runs", tag="big")
