"""Sessions with the output manager: what to tell it, and what the file holds."""
import json, re, subprocess
from vf import *
from phys import *
import runs

KINDS = ("electron", "positron", "photon")


def build_output(c):
    return c.build.link("output", [os.path.join(HARN, "output.cpp"), os.path.join(HARN, "rngshim.cpp")] + repo_sources("IO", *CORE), flags=SHIM, libs=HDFLIB)


def parse_calls(text):
    """The calls printed by OutputGen, as dictionaries."""
    out = []
    for m in re.finditer(r"\[([^\[\]]*)\]", text):
        d = {}
        for k, v in re.findall(r"(\w+) \|-> (\\?\"[^\"]*\"|-?\d+|TRUE|FALSE)", m.group(1)):
            v = v.replace("\\", "")
            d[k] = v[1:-1] if v[0] == '"' else {"TRUE": True, "FALSE": False}[v] if v in ("TRUE", "FALSE") else int(v)
        out.append(d)
    return out


def tla_calls(r, c, module, cfg, args=()):
    t = c.model(module, cfg, args=args)
    calls = [parse_calls(p.replace('\\"', '"')) for p in t.tagged("CMD")]
    r.shuffle(calls)
    return calls


def rpart(r, kind=None, alive=True, track=True, rows=None, scale=None):
    kind = kind or r.choice(KINDS)
    scale = scale or 10 ** r.uniform(-3, 4)
    n = rows if rows is not None else r.choice([0, 1, 2, r.randrange(12)])
    h = " ".join("%s %s %s" % (hx(r.choice([0.5, 2.0 ** -4, r.random()])), hv(rv(r)), hv(rv(r, scale))) for _ in range(n))
    return "%s %d %s" % (part(kind, rv(r), rv(r, scale), w=r.uniform(0.1, 3), t=r.choice([0, r.random()]), track=track, alive=alive), n, h)


def deflist(name, parts):
    return "deflist %s %d %s" % (name, len(parts), " ".join(parts))


def population(r, n, track):
    """The populations of OutputGen."""
    k = {1: [("electron", 1)], 2: [("photon", 0), ("positron", 1), ("electron", 1), ("photon", 1), ("electron", 1)], 3: [("photon", 0)]}.get(n, [("photon", 1), ("photon", 1)])
    return [rpart(r, a, bool(b), track) for a, b in k]


def tokens(call, l):
    o = call["o"]
    if o == "begin":
        return "begin %d" % call["k"]
    if o in ("prim", "final", "track"):
        return "%s %d %d" % (o, call["k"], l)
    if o == "flush":
        return "flush %d %d" % (call["s"], call["t"])
    if o == "single":
        return "single %s %d %d" % (call["name"], l, call["i"] - 1)
    return "%s %s %d" % (o, call["name"], l)


def replay(r, calls, path):
    """The command that takes the manager through calls, with fresh particles."""
    lists, body = [], []
    for c in calls:
        l = 0
        if "l" in c:
            l = len(lists)
            lists.append(deflist("beam" if c["o"] == "props" else "l%d" % l, population(r, c["l"], True)))
        body.append(tokens(c, l))
    return "session %s %s %s %s end" % (path, r.choice(["none", "SI"]), " ".join(lists), " ".join(body))


def random_session(r, path, dumps=True):
    """A longer session: several sources of many events, with lists of any mix."""
    lists, body = [], []

    def new(parts, name=None):
        lists.append(deflist(name or "l%d" % len(lists), parts))
        return len(lists) - 1

    track = r.random() < 0.7
    for s in range(r.randrange(1, 5)):
        n = r.choice([0, 1, 2, r.randrange(3, 14)])
        out = r.random() < 0.75
        if out:
            body.append("begin %d" % n)
        todo = []
        for k in range(n):
            kind = r.choice(KINDS)
            mk = r.choice([1, 1, r.randrange(2, 9), 0])
            alive = r.choice([0.0, 0.5, 0.9, 1.0])
            fin = [rpart(r, kind if i == 0 else None, r.random() < alive, track) for i in range(max(1, mk))]
            a = new([rpart(r, kind, True, track, rows=0)])
            b = new(fin)
            todo.append([x for x in (["prim %d %d" % (k, a), "final %d %d" % (k, b)] if out else []) + (["track %d %d" % (k, b)] if track else [])])
        while any(todo):
            i = r.choice([i for i, t in enumerate(todo) if t])
            body.append(todo[i].pop(0))
        body.append("flush %d %d" % (out, track))
        if dumps and r.random() < 0.4:
            l = new([rpart(r) for _ in range(r.randrange(1, 5))], "named%d" % len(lists))
            body.append(r.choice(["single one%d %d 0" % (l, l), "list some%d %d" % (l, l), "props set%d %d" % (l, l)]))
    return "session %s %s %s %s end" % (path, r.choice(["none", "SI"]), " ".join(lists), " ".join(body))


def refused_session(r, path):
    n = r.randrange(1, 5)
    bad = r.randrange(n)
    l = deflist("l0", [rpart(r, track=i != bad) for i in range(n)])
    return "session %s %s %s %s end" % (path, r.choice(["none", "SI"]), l, r.choice(["single one 0 %d" % bad, "list some 0"]))


HTYPES = ["Energy", "energy", "X", "x", "Y", "y", "Z", "z", "PX", "px", "PY", "py", "PZ", "pz"]


def value_part(r, what, v):
    """A particle whose quantity what has the value v exactly."""
    x, p = rv(r), rv(r)
    w = what.lower()
    if w == "energy":
        return part("photon", x, [0, 0, abs(v)]) + " 0"
    if w.startswith("p"):
        p["xyz".index(w[1])] = v
    else:
        x["xyz".index(w)] = v
    return part(r.choice(KINDS), x, p) + " 0"


def hist_session(r, path):
    """Histograms of particles with values at, near and between bin centres and
    edges, counted one by one, from lists, and merged."""
    lists, body = [], []

    def new(parts):
        lists.append(deflist("l%d" % len(lists), parts))
        return len(lists) - 1
    for i in range(r.randrange(1, 4)):
        what = r.choice(HTYPES)
        bins = r.choice([2, 3, 5, 9, r.randrange(2, 40)])
        lo = r.choice([0, r.uniform(-50, 50), 1.0, -8.0])
        if what.lower() == "energy":
            lo = abs(lo)
        hi = lo + r.choice([bins - 1.0, 8.0, 10 ** r.uniform(-2, 3)])

        def some(n):
            out = []
            for _ in range(n):
                k = r.random()
                d = (hi - lo) / (bins - 1)
                j = r.randrange(bins)
                v = lo + j * d if k < 0.2 else lo + (j + 0.5) * d if k < 0.35 else r.choice([lo, hi]) if k < 0.5 else \
                    r.choice([lo, hi]) * (1 + r.choice([-1, 1]) * 2 ** -40) if k < 0.55 else lo + (j + 0.5 + r.choice([-1, 1]) * 1e-6) * d if k < 0.65 else r.uniform(lo - d, hi + d)
                out.append(value_part(r, what, v))
            return out
        acts = []
        for _ in range(r.randrange(1, 5)):
            k = r.random()
            if k < 0.55:
                n = r.randrange(1, 7)
                l = new(some(n))
                acts += ["app %d %d" % (l, j) for j in range(n)]
            elif k < 0.75 and what.lower() in ("energy", "x", "y", "z"):
                acts.append("fill %d" % new(some(r.randrange(0, 7))))
            else:
                l2, h2, b2 = (lo, hi, bins) if r.random() < 0.7 else r.choice([(lo, hi, bins + 1), (lo, hi + 1, bins), (lo - 1, hi, bins)])
                acts.append("merge %s %s %d %d" % (hx(l2), hx(h2), b2, new(some(r.randrange(0, 6)))))
        body.append("hist h%d Electron %s %s %s %s %d %s out" % (i, what, hx(r.random()), hx(lo), hx(hi), bins, " ".join(acts)))
    return "session %s none %s %s end" % (path, " ".join(lists), " ".join(body))


def axis(r, n, s, c=0.0):
    if n == 1:
        return [c + r.uniform(-1, 1) * s]
    return sorted(c + r.uniform(-1, 1) * s for _ in range(n))


def field_session(r, path):
    k = r.choice(["static", "static", "plane", "gaussian", "focusing"])
    if k == "static":
        f, s, t0 = static_field(r), 3.0, 1.0
        tx = [(r.uniform(-1, 1), rv(r))]
    elif k == "plane":
        f, lam, d = plane_field(r)
        s, t0, tx = lam, lam, None
        cen, tc = [0, 0, 0], 0
    else:
        f, g = beam_field(r, k)
        s = g[3] * 0.7
        tc, cen = near_pulse(r, g)
    if k == "static":
        tc, cen = tx[0]
    ax = [axis(r, r.randrange(1, 4), s * 0.3, tc)] + [axis(r, r.randrange(1, 5), s, cen[i]) for i in range(3)]
    return "session %s none field %s %s end" % (path, f, " ".join("%d %s" % (len(a), hv(a)) for a in ax))


def observe_sessions(c, exe, dump, make, n, tag, env=None):
    """make(r, path) for n sessions; the observations with the files' contents."""
    d = os.path.join(c.work, tag)
    os.makedirs(d, exist_ok=True)
    cmds = [make(c.rng, os.path.join(d, "%d.h5" % i)) for i in range(n)]
    obs = c.observe_par(exe, cmds, env=dict(env or {}, VERIF_RNG_CONST="0.3"))
    good = [o for o in obs if o["op"] == "session"]

    ds = runs.dump_files(dump, [o["path"] for o in good])
    for o, x in zip(good, ds):
        o.update(x)
        del o["path"]
    shutil.rmtree(d, ignore_errors=True)
    return obs


def describe(o):
    if o["op"] != "session":
        return o
    return {"units": o["units"], "status": o["status"], "calls": shorten(o["calls"]), "lists": [(l["name"], len(l["parts"])) for l in o["lists"]][:10],
            "sets": [(s["path"], s["dims"], shorten(s["data"])) for s in o["sets"]][:8]}


def judge_sessions(c, exe, dump, make, n, what, tag, env=None):
    obs = observe_sessions(c, exe, dump, make, n, tag, env)
    c.judge("OutputTrace", obs, what, describe=describe)
    return obs
