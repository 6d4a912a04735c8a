"""C01: the step loop (spec Cascade, CascadeModel, CascadeRun)."""
from runs import *


def main(c):
    r = c.rng
    c.model("CascadeModel")
    exe, dump, ref = build_main(c), build_dump(c), reference_units(c)
    for k in range(c.n(2, 6)):
        d = os.path.join(c.work, "tables%d" % k)
        tables.write_tables(r, d, t10=(-0.5, 1) if k % 2 else (0.5, 2.5))
        t = tables.tables_json(d, d + ".json")
        rs = []
        for _ in range(c.n(60, 400)):
            src = [(r.choice(SPECIES), r.choice([1, 1, 2, 3]), r.random() < 0.7, False) for _ in range(r.choice([1, 1, 2]))]
            rs.append(make_run(r, t, src, model=r.choice(MODELS + ("Quantum", "Quantum")), pair=r.random() < 0.8, track=r.random() < 0.9,
                               steps=r.choice([0, 0.5, 1, 1.5, 2, 2.5, 3.5, 5.5, 7.3]), kind=r.choice(["static", "static", "none"]), rate=r.choice([0.3, 1, 2])))
        campaign(c, exe, dump, ref, rs, d, ["tables", "tracks"], "histories of whole runs, tables %d" % k, tag="t%d" % k)
    campaign(c, exe, dump, ref, big_runs(r, t, c.n(2, 6)), d, ["tables", "tracks"], "large runs", tag="big")
