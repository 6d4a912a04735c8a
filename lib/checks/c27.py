"""C27: the data file (spec DataFile, DataFileGen, DataFileTrace)."""
import re
from outputs import *


def tokens_of(hist, r):
    """A history printed by DataFileGen as the words of the harness."""
    out = []
    for m in re.finditer(r'<<"(\w+)"(?:, <<((?:"\w+"(?:, )?)+)>>, <<([\d, ]+)>>)?>>', hist):
        o, p, d = m.groups()
        if o == "garbage":
            out.append("garbage %d close" % r.choice([1, 40, 100, 5000]))
        elif o == "gone":
            out.append("gone close")
        elif p:
            out.append("%s %s" % (o, p.replace('"', "").replace(", ", "/")))
            if o == "array":
                dims = d.split(", ")
                out.append("%d %s %d" % (len(dims), " ".join(dims), r.randrange(1, 1 << 30)))
        else:
            out.append(o)
    # an opening that is refused has no calls and needs no closing
    res = []
    for i, x in enumerate(out):
        res.append(x)
        nxt = out[i + 1] if i + 1 < len(out) else "end"
        if x in ("new", "append") and nxt.split()[0] in ("new", "append", "gone", "garbage", "end"):
            res.append("close")
    return " ".join(res)


def long_session(r):
    """Many calls over many openings, with paths of any depth and arrays of any shape."""
    names = ["a", "b", "Fields", "x1", "x10", "Histograms", "longer_name-with.signs"]
    known, out = [], []
    big = r.random() < 0.1
    for k in range(r.choice([1, 2, 4, 8])):
        m = r.choice(["append", "append", "new", "append", "garbage", "gone"]) if k else r.choice(["new", "new", "new", "append"])
        if m in ("garbage", "gone"):
            out.append(m + (" %d" % r.choice([1, 7, 96, 1000, 20000]) if m == "garbage" else "") + " close")
            continue
        out.append(m)
        for _ in range(r.choice([0, 1, 3, 8, 25])):
            o = r.choice(["group", "group", "sub", "array", "array", "array"])
            base = r.choice(known) + "/" if known and r.random() < 0.7 else ""
            p = r.choice(known) if known and r.random() < 0.15 else base + r.choice(names)
            if r.random() < 0.05:
                p += "/" + r.choice(names)
            known.append(p)
            out.append("%s %s" % (o, p))
            if o == "array":
                rank = r.choice([1, 2, 3])
                dims = [r.choice([0, 1, 1, 2, 3, 5, 11]) for _ in range(rank)]
                if big and r.random() < 0.3:
                    dims = r.choice([[3000], [40, 70], [12, 13, 14], [1, 2000, 1]])
                out.append("%d %s %d" % (len(dims), " ".join(map(str, dims)), r.randrange(1, 1 << 30)))
        out.append("close")
    return " ".join(out)


def look(c, dump, obs):
    """What an independent reader finds in the file after every closing."""
    files = [(o, k) for o in obs if o["op"] == "session" for k in range(len(o["opens"]))]

    ds = runs.dump_files(dump, ["%s.%d" % (o["path"], k) for o, k in files], 60)
    split = lambda p: [x for x in p.split("/") if x]
    for (o, k), d in zip(files, ds):
        d["groups"] = [split(g) for g in d["groups"]]
        for s in d["sets"]:
            s["path"] = split(s["path"])
        o["opens"][k]["found"] = d
        for x in o["opens"][k]["calls"]:
            x["path"] = split(x["path"])
    for o in obs:
        o.pop("path", None)


def describe(o):
    return {"status": o["status"], "opens": [(x["mode"], x["ok"], [(y["o"], "/".join(y["path"]), y["dims"], y["ok"]) for y in x["calls"]]) for x in o["opens"]]}


def main(c):
    exe = c.build.link("datafile", [os.path.join(HARN, "datafile.cpp"), os.path.join(REPO, "Source/IO/Output/HDF5Output.cpp")] + repo_sources("Tools"), libs=HDFLIB)
    dump = runs.build_dump(c)
    r = c.rng
    hist = [tokens_of(p.replace('\\"', '"'), r) for p in c.model("DataFileGen", c.n("DataFileGen", "DataFileDeep")).tagged("CMD")]
    if len(hist) < 1000:
        raise CheckError("DataFileGen made no histories")
    r.shuffle(hist)
    for what, todo in (("histories of the specification", hist[:c.n(1500, 20000)]), ("long histories", [long_session(r) for _ in range(c.n(300, 4000))])):
        d = os.path.join(c.work, "files")
        os.makedirs(d)
        # what is released is spoilt, so that nothing of it can be used
        obs = c.observe_par(exe, ["session %s %s" % (os.path.join(d, "%d.h5" % i), x) for i, x in enumerate(todo)], env={"MALLOC_PERTURB_": "165"})
        look(c, dump, obs)
        shutil.rmtree(d)
        c.judge("DataFileTrace", obs, what, describe=describe)
    c.assumptions = ["an array or group whose place is taken or missing is refused with an exception of HDF5, which the caller may catch",
                     "one handle per file at a time"]
