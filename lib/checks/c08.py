"""C08: event tables (spec Output, OutputGen, OutputTrace; Cascade, CascadeRun)."""
from outputs import *
from runs import *


def main(c):
    r = c.rng
    exe, dump, ref = build_output(c), build_dump(c), reference_units(c)
    # the manager: behaviours of the specification and longer sessions
    calls = [x for x in tla_calls(r, c, "OutputGen", "OutputGen" if not c.thorough else "OutputDeep") if any(y["o"] == "flush" and y["s"] for y in x)]
    judge_sessions(c, exe, dump, lambda r, p: replay(r, calls.pop(), p), min(len(calls), c.n(200, 2500)), "behaviours of OutputGen", "gen")
    judge_sessions(c, exe, dump, random_session, c.n(120, 1500), "several sources of many events", "long")
    # the program: several sources, with and without output, of any size
    main_exe = build_main(c)
    d = os.path.join(c.work, "tables")
    tables.write_tables(r, d, t10=(-0.5, 1.5))
    t = tables.tables_json(d, d + ".json")
    rs = []
    for _ in range(c.n(90, 800)):
        src = [(r.choice(SPECIES), r.choice([0, 1, 2, 2, 3, 5]), r.random() < 0.75, r.random() < 0.3) for _ in range(r.randrange(1, 5))]
        if not any(s[2] for s in src) and r.random() < 0.8:
            src[0] = src[0][:2] + (True,) + src[0][3:]
        src = [s if s[2] else s[:3] + (False,) for s in src]
        rs.append(make_run(r, t, src, model=r.choice(MODELS), pair=r.random() < 0.8, track=r.random() < 0.2, steps=r.choice([1, 1.5, 2.5, 3.5]), kind=r.choice(["static", "static", "none"])))
    campaign(c, main_exe, dump, ref, rs, d, ["tables"], "whole runs of several sources")
    campaign(c, main_exe, dump, ref, big_runs(r, t, c.n(2, 6)), d, ["tables"], "large runs", tag="big")
