"""Physics tables: random small ones, and reading table files back the way
their format is documented by the reader (for the specification)."""
import json, math, os
from vf import *


def words(path):
    return [float(x) for x in open(path).read().split()]


def read_tables(d):
    h = words(d + "/hsokolov.table")
    n = int(h[0])
    k = words(d + "/ksi_sokolov.table")
    ne, nc = int(k[0]), int(k[1])
    t = words(d + "/pairprod.table")
    nt = int(t[0])
    s = words(d + "/e_split.table")
    ns = int(s[0])
    return {"hx": h[1:2 * n:2], "hy": h[2:2 * n + 1:2], "etalo": k[2], "etahi": k[3],
            "chimin": words(d + "/chimin.table")[:ne],
            "ksi": [k[4 + i * nc:4 + (i + 1) * nc] for i in range(ne)],
            "tx": t[1:2 * nt:2], "ty": t[2:2 * nt + 1:2],
            "splitx": words(d + "/log_chi.table")[:ns], "eps": words(d + "/epsilon.table")[:ns],
            "split": [s[1 + i * ns:1 + (i + 1) * ns] for i in range(ns)]}


def pairs(v):
    return [pairs(x) for x in v] if isinstance(v, list) else {k: pairs(x) for k, x in v.items()} if isinstance(v, dict) else bits(v)


def tables_json(d, path):
    t = read_tables(d)
    with open(path, "w") as f:
        json.dump(pairs(t), f)
    return t


def increasing(r, lo, hi, n, ends=True):
    xs = sorted(lo + (hi - lo) * r.random() for _ in range(n))
    if ends:
        xs[0], xs[-1] = lo, hi
    for i in range(1, n):
        if xs[i] - xs[i - 1] < 1e-3 * (hi - lo) / n:
            xs[i] = xs[i - 1] + 1e-3 * (hi - lo) / n
    return xs


def write_tables(r, d, neta=7, nchi=5, nh=9, nt=11, ns=6, t10=(-3, 0.5), chi10=3.0):
    """Random tables with the shape of the real ones but small, with axes of
    different lengths, so that mixing up lengths or indices shows."""
    os.makedirs(d, exist_ok=True)

    def w(name, lines):
        with open(os.path.join(d, name), "w") as f:
            f.write("\n".join(" ".join(repr(x) for x in l) for l in lines) + "\n")
    hx = increasing(r, -5.0, 3.0, nh)
    w("hsokolov.table", [[nh]] + [[x, r.uniform(-0.4, 0.7)] for x in hx])
    lo, hi = -4.0, 2.0
    ax = [lo + i * (hi - lo) / (neta - 1) for i in range(neta)]
    w("chimin.table", [[10 ** (x - math.log10(2) - r.uniform(2, 4))] for x in ax])
    w("ksi_sokolov.table", [[neta, nchi, lo, hi]] + [increasing(r, 0.0, 1.0, nchi) for _ in ax])
    tx = increasing(r, -5.0, 4.0, nt)
    w("pairprod.table", [[nt]] + [[x, r.uniform(*t10)] for x in tx])
    w("e_split.table", [[ns]] + [increasing(r, 0.0, 1.0, ns) for _ in range(ns)])
    w("epsilon.table", [[x] for x in increasing(r, 0.0, 1.0, ns)])
    w("log_chi.table", [[x] for x in increasing(r, -3.0, chi10, ns)])
    return d


def log_range(axis):
    """The part of the world that a table covers, with a margin."""
    return axis[0] + 1e-6, axis[-1] - 1e-6


def eta_axis(t):
    n = len(t["chimin"])
    return [t["etalo"] + i * (t["etahi"] - t["etalo"]) / (n - 1) for i in range(n)]
