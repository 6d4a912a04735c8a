"""C09: recorded tracks (spec Output, OutputGen, OutputTrace; Cascade, CascadeRun)."""
from outputs import *
from runs import *


def dumps_session(r, path):
    lists, body = [], []
    for i in range(r.randrange(1, 6)):
        lists.append(deflist("l%d" % i, [rpart(r, alive=r.random() < 0.8) for _ in range(r.randrange(1, 6))]))
        body.append(r.choice(["single one%d %d 0" % (i, i), "list some%d %d" % (i, i)]))
    return "session %s %s %s %s end" % (path, r.choice(["none", "SI", "SI"]), " ".join(lists), " ".join(body))


def long_session(r, path):
    """Particles that were followed for many thousand steps, among others."""
    lists, body = [], []
    for i in range(r.randrange(1, 3)):
        n = r.randrange(1, 3)
        long = r.randrange(n)
        lists.append(deflist("l%d" % i, [rpart(r, rows=r.randrange(17000, 22000) if j == long else r.randrange(200)) for j in range(n)]))
        body += {0: ["single one%d %d %d" % (i, i, long)], 1: ["list some%d %d" % (i, i)], 2: ["track 0 %d" % i, "flush 0 1"]}[r.randrange(3)]
    return "session %s %s %s %s end" % (path, r.choice(["none", "SI"]), " ".join(lists), " ".join(body))


def main(c):
    r = c.rng
    exe, dump, ref = build_output(c), build_dump(c), reference_units(c)
    calls = [x for x in tla_calls(r, c, "OutputGen", "OutputGen" if not c.thorough else "OutputDeep") if any(y["o"] in ("track", "list", "single") for y in x)]
    judge_sessions(c, exe, dump, lambda r, p: replay(r, calls.pop(), p), min(len(calls), c.n(150, 2500)), "behaviours of OutputGen", "gen")
    judge_sessions(c, exe, dump, random_session, c.n(80, 1200), "tracks of several sources", "long")
    judge_sessions(c, exe, dump, dumps_session, c.n(80, 1000), "single particles and lists", "dumps")
    judge_sessions(c, exe, dump, long_session, c.n(6, 40), "long histories", "far")
    judge_sessions(c, exe, dump, refused_session, c.n(30, 200), "untracked particles", "refused")
    main_exe = build_main(c)
    d = os.path.join(c.work, "tables")
    tables.write_tables(r, d, t10=(-0.5, 1.5))
    t = tables.tables_json(d, d + ".json")
    rs = []
    for _ in range(c.n(80, 800)):
        src = [(r.choice(SPECIES), r.choice([0, 1, 1, 2, 3]), r.random() < 0.6, False) for _ in range(r.randrange(1, 4))]
        rs.append(make_run(r, t, src, model=r.choice(MODELS), pair=r.random() < 0.8, track=r.random() < 0.8, steps=r.choice([1, 1.5, 2.5, 3.5]), kind=r.choice(["static", "static", "none"])))
    campaign(c, main_exe, dump, ref, rs, d, ["tracks"], "tracks of whole runs")
    campaign(c, main_exe, dump, ref, big_runs(r, t, c.n(2, 6)), d, ["tracks"], "large runs", tag="big")
