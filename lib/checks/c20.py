"""C20: the result arrays (spec Events, RunManager, RunManagerTrace)."""
from manager import *


def setup(r, w, kind, who, model, pair, frac):
    k = r.choice([kind, kind.capitalize()])
    out = [call_time(w), call_field(w, kind, k), {"c": "physics", "name": r.choice([model, model.lower()])}, call_source(w, who, r.choice([who, who.lower()])),
           {"c": "pair", "use": pair}, {"c": "fraction", "v": frac}]
    r.shuffle(out)
    return out


def beam(r, w, ref, who):
    """A beam whose spreads are all large, for a moment in the field."""
    T, L, W = (real(ref[k]) for k in ("time", "length", "energy"))
    s = call_source(w, who, who)
    d = r.choice(["gaussian", "linear", "mono"])
    e = 10 ** r.uniform(1, 3)
    s.update(distro=d, e1=e * W, e2=W * (e * r.uniform(0.02, 0.1) if d == "gaussian" else e * r.uniform(1.3, 3)), x=[L * v for v in rv(r, 50)],
             radius=r.choice([0, 10 ** r.uniform(0, 2) * L]), tau=r.choice([0, 10 ** r.uniform(0, 2) * T]), div=r.choice([0, 0.01, 0.2]))
    return s


def main(c):
    r, ref = c.rng, reference_units(c)
    for k in range(c.n(1, 3)):
        tdir = os.path.join(c.work, "tables%d" % k)
        t = write_wide(r, tdir)
        for omp in (False, True):
            mod = build_module(c, omp)
            sess = []
            for _ in range(c.n(130, 1200)):
                w = world(r, t, ref, spread=r.random() < 0.5)
                calls = [{"c": "read"}] if r.random() < 0.1 else []
                calls += setup(r, w, r.choice(["gaussian", "focusing"]), r.choice(SPECIES), r.choice(w["models"]), r.random() < 0.7, r.choice([1.0, w["frac"] * 1.0]))
                for n in r.sample([0, 1, 2, 5, 9, 17], r.choice([1, 2])):
                    calls.append(call_run(r, n, r.choice([1, 2, 3, 4, 5, 8, 12]) if omp else 1))
                    if r.random() < 0.3:
                        calls.append({"c": "read"})
                sess.append({"calls": [dict(x, m=1) for x in calls], "u": w["u"], "random": False, "seed": 0, "omp": omp})
            judge_sessions(c, play(c, mod, sess, tdir), "arrays, constant draws, %s OpenMP" % ("with" if omp else "without"), ref, tdir)
            sess = []
            for i in range(c.n(24, 150)):
                # what happens with random draws, and the beams
                w = world(r, t, ref, spread=True)
                who = r.choice(SPECIES)
                calls = setup(r, w, r.choice(["gaussian", "focusing"]), who, w["model"], r.random() < 0.7, r.choice([1.0, w["frac"] * 1.0]))
                n = r.choice([1, 3, 40, 60])
                if i % 4 == 0:
                    T = real(ref["time"])
                    calls += [beam(r, w, ref, who), {"c": "time", "dt": 1e-6 * T, "end": r.choice([0.0, 0.5e-6 * T, 1e-6 * T])}]
                    n = c.n(1500, 4000)
                calls.append(call_run(r, n, r.choice([1, 2, 3, 4, 7, 8]) if omp else 1))
                if r.random() < 0.5:
                    calls.append(call_run(r, r.choice([1, 5]), r.choice([1, 2, 8]) if omp else 1))
                sess.append({"calls": [dict(x, m=1) for x in calls], "u": 0.5, "random": True, "seed": c.seed * 1000 + i, "omp": omp})
            judge_sessions(c, play(c, mod, sess, tdir), "arrays, random draws, %s OpenMP" % ("with" if omp else "without"), ref, tdir)
    c.assumptions = ["statistics of pseudo-random samples are accepted within six standard deviations",
                     "the order of rows is not part of the property"]
