"""Drives the real Python module. Reads one session per line (a list of calls
with the exact numbers) and writes what was observed; each session runs in a
process of its own. Usage: manager.py DIRECTORY-OF-MODULE"""
import ctypes, json, os, signal, struct, sys, tempfile
import numpy
sys.path.insert(0, sys.argv[1])
import QEDCascPy as Q
LIB = ctypes.CDLL(getattr(Q, "QEDCascPy", Q).__file__)      # the module itself, or the package around it
SCRIPTED = hasattr(LIB, "verif_rng")
if SCRIPTED:
    LIB.verif_rng.argtypes = [ctypes.c_int, ctypes.c_double, ctypes.c_ulonglong]
LIMIT = float(os.environ.get("VERIF_LIMIT", "60"))


def bits(x):
    hi, lo = struct.unpack(">ii", struct.pack(">d", 0.0 if x == 0 else x))
    return [hi, lo]


def num(x):
    return float.fromhex(x) if isinstance(x, str) else x


def array(a):
    return {"dims": list(a.shape), "data": [bits(x) for x in numpy.array(a, dtype=float).reshape(-1).tolist()]}


def call(m, c):
    v3 = lambda k: Q.ThreeVector(*[num(x) for x in c[k]])
    n = lambda k: num(c[k])
    if c["c"] == "time":
        m.setTime(n("dt"), n("end"))
    elif c["c"] == "field":
        m.setField(c["name"], n("max"), n("lam"), n("tau"), n("waist"), n("pol"), v3("start"), v3("focus"))
    elif c["c"] == "physics":
        m.setPhysics(c["name"])
    elif c["c"] == "source":
        m.setGenerator(c["name"], c["distro"], n("e1"), n("e2"), n("radius"), n("tau"), n("div"), v3("x"), v3("dir"))
    elif c["c"] == "fraction":
        m.setSampleFraction(n("v"))
    elif c["c"] == "pair":
        m.usePairProduction(c["use"])
    elif c["c"] == "run":
        if c["threads"] == 1 and c.get("plain"):
            m.beamOn(c["events"])
        elif c.get("named"):
            m.beamOn(events=c["events"], threads=c["threads"])
        else:
            m.beamOn(c["events"], c["threads"])


def session(s, out):
    err = tempfile.TemporaryFile()
    os.dup2(err.fileno(), 2)
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    if SCRIPTED:
        LIB.verif_rng(0 if s["random"] else 1, num(s["u"]), s["seed"])
    ms, kept = {}, []
    for c in s["calls"]:
        if c["m"] not in ms:
            ms[c["m"]] = Q.RunManager()
        before = os.lseek(2, 0, os.SEEK_END)
        raised = False
        try:
            call(ms[c["m"]], c)
        except Exception:
            raised = True
        sys.stderr.flush()
        o = {"said": raised or os.lseek(2, 0, os.SEEK_END) > before}
        if c["c"] in ("run", "read"):
            m = ms[c["m"]]
            a = {"input": m.getInput(), "electrons": m.getElectrons(), "positrons": m.getPositrons(), "photons": m.getPhotons()}
            o["res"] = {k: array(v) for k, v in a.items()}
            kept.append((a, o["res"]))
        out.write(json.dumps(o) + "\n")
        out.flush()
    ms.clear()
    same = all(array(a[k]) == r[k] for a, r in kept for k in a)
    out.write(json.dumps({"kept": same}) + "\n")
    out.flush()


if __name__ == "__main__":
    for line in sys.stdin:
        s = json.loads(line)
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            signal.setitimer(signal.ITIMER_REAL, LIMIT)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            rc = 70
            try:
                with os.fdopen(wr, "w") as out:
                    session(s, out)
                rc = 0
            finally:
                os._exit(rc)
        os.close(wr)
        with os.fdopen(rd) as f:
            got = f.read().splitlines()
        st = os.waitpid(pid, 0)[1]
        calls, kept = [], False
        for x in got:
            try:
                o = json.loads(x)
            except ValueError:
                break
            if "kept" in o:
                kept = o["kept"]
            else:
                calls.append(o)
        print(json.dumps({"calls": calls, "kept": kept, "sig": os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0,
                          "exit": os.WEXITSTATUS(st) if os.WIFEXITED(st) else 0}), flush=True)
