"""C10: histograms (spec Output, OutputTrace; Cascade, CascadeModel, CascadeRun)."""
from outputs import *
from runs import *


def main(c):
    r = c.rng
    c.model("CascadeModel")
    exe, dump, ref = build_output(c), build_dump(c), reference_units(c)
    judge_sessions(c, exe, dump, hist_session, c.n(250, 3000), "histograms of chosen values", "hist")
    main_exe = build_main(c)
    d = os.path.join(c.work, "tables")
    tables.write_tables(r, d, t10=(-0.5, 1.5))
    t = tables.tables_json(d, d + ".json")
    rs = []
    for _ in range(c.n(120, 1000)):
        steps = r.choice([0, 1, 1.5, 2.5, 3.5, 4.5])
        src = [(r.choice(SPECIES), r.choice([0, 1, 2, 3]), r.random() < 0.5, False) for _ in range(r.randrange(1, 4))]
        times = [0, 0, 0.5, 1, 1, 1.5, 2, 2.5, 3.3, steps, steps + 0.5, 99]
        hist = [(r.choice(SPECIES), r.choice(HTYPES), r.choice(times), r.choice([2, 3, r.randrange(4, 40)])) for _ in range(r.randrange(1, 6))]
        if r.random() < 0.5:
            hist = [(src[0][0],) + h[1:] for h in hist]
        rs.append(make_run(r, t, src, model=r.choice(MODELS), pair=r.random() < 0.7, track=False, steps=steps, hist=hist, kind=r.choice(["static", "static", "none"])))
    campaign(c, main_exe, dump, ref, rs, d, ["hist"], "histograms of whole runs")
    campaign(c, main_exe, dump, ref, big_runs(r, t, c.n(2, 6)), d, ["hist"], "large runs", tag="big")
