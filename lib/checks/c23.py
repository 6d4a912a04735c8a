"""C23: the physics tables (specs Spectra, TablesGen, ProcessesTrace, LoadTrace)."""
import bisect, re, math
import tables
from phys import *


def node_cmd(tab, kind, x, u, y=0.0):
    """A lepton or photon along x in a magnetic field along z whose eta or chi is 10^x."""
    val = 10 ** x
    if kind == "pair":
        en = 50.0
        b, p, who = val / (0.5 * en), [en, 0, 0], "photon"
    else:
        g = 500.0
        m = math.sqrt(g * g - 1)
        b, p, who = val / m, [m, 0, 0], "electron"
    emits = tab in ("eta", "split")
    od = 1e-60 if emits else 1e-3
    # otherwise a step that uses up about half of the optical depth
    dt = 1e4 if emits else 5e-4 * (en / (0.0073 * val * 10 ** y) if kind == "pair" else g * 2 * math.pi / (1.732 * 0.0073 * val * 10 ** y))
    return "proc %s %s %s 0 0 %s static 0 0 0 0 0 %s %s %s" % (kind, hx(dt), hx(1), hx(od), hx(b), part(who, [0, 0, 0], p), " ".join(hx(v) for v in u))


def main(c):
    d = os.path.join(REPO, "Tables")
    js = os.path.join(c.work, "real.json")
    try:
        t = tables.tables_json(d, js)
    except (ValueError, IndexError, OSError, KeyError, UnicodeDecodeError) as e:
        c.report("shipped tables", "complete", {"error": str(e)}, "a shipped table cannot be read: %s" % e)
        return
    r = c.model("TablesGen", env={"TABLES": js}, expect_ok=False)
    c.cov["traces_validated_against_impl"] += r.states
    bad = re.findall(r"Error: Invariant (\w+) is violated", r.text)
    if bad:
        at = dict(re.findall(r"(tab|row) = (\S+)", r.text))
        c.report("shipped tables", bad[0], {"table": at.get("tab"), "row": at.get("row"), "invariant": bad[0]}, "table %s, row %s" % (at.get("tab"), at.get("row")))
        return
    if r.rc:
        if "Error: Parsing or semantic" in r.text or r.rc in (150, 151, 152, -999):
            raise CheckError("TLC could not run TablesGen:\n" + r.text[-3000:])
        c.report("shipped tables", "readable", {"text": r.text[-2000:]}, "a shipped table has a shape the specification cannot read")
        return
    exe = build_physics(c)
    cmds = []
    draws = [0.0, 0.003, 0.05, 0.3, 0.5, 0.8, 0.97, 1 - 2 ** -53]
    for k, p in enumerate(sorted(r.tagged("CMD"))):
        m = re.match(r'<<"CMD", "(\w+)", (.*)>>$', p)
        tab = m.group(1)
        a, b = eval("[" + m.group(2).replace("<<", "[").replace(">>", "]") + "]")
        a, b = real(a), real(b)
        pick = draws if c.thorough else [draws[(k + 3 * i) % len(draws)] for i in range(2)]
        if tab in ("h", "t"):
            # most of the pair rate table has next to no pairs in it
            if tab == "h" or a > -2.6:
                cmds.append(node_cmd(tab, "stoch" if tab == "h" else "pair", a if k % 2 else 0.6 * a + 0.4 * b, [0.5],
                                     (t["hy"] if tab == "h" else t["ty"])[bisect.bisect(t["hx"] if tab == "h" else t["tx"], a) - 1]))
        else:
            for i, u in enumerate(pick):
                f = (0.001, 0.37, 0.9)[(k + i) % 3]
                x = a + f * (b - a)
                for kind in (["stoch", "cont"] if tab == "eta" and (c.thorough or i == 0) else ["stoch"] if tab == "eta" else ["pair"]):
                    if kind == "pair" and x < -2.2:
                        continue
                    cmds.append(node_cmd(tab, kind, x, [0.2, u, 0.4, 0.6] if kind == "cont" else [u, 0.4, 0.6, 0.7]))
    obs = c.observe_par(exe, cmds, env={"QED_TABLES_PATH": d})
    c.judge("ProcessesTrace", obs, "lookups in every row of the shipped tables", env={"TABLES": js})
    # a missing table
    obs = []
    for miss in ["", "hsokolov.table", "ksi_sokolov.table", "chimin.table", "pairprod.table", "e_split.table", "epsilon.table", "log_chi.table"]:
        e = os.path.join(c.work, "without-" + (miss or "none"))
        os.makedirs(e)
        for f in os.listdir(d):
            if f != miss and f.endswith(".table"):
                os.symlink(os.path.join(d, f), os.path.join(e, f))
        for o in c.observe(exe, ["notable %s %s" % (k, e) for k in ("stoch", "cont", "pair")]):
            if o["op"] == "notable":
                # names are shown with a stray blank in places
                o.update(missing=miss, named=miss in o.pop("msg"))
            obs.append(o)
    c.judge("LoadTrace", obs, "start without a table")
