"""Machinery shared by all checks: builds harnesses from /repo's working tree,
runs them, hands what they observed to TLC and reports the verdict."""
import concurrent.futures, glob, hashlib, json, os, random, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PYENV = "/opt/vp/pyenv/bin/python"
HDF = ["-I/usr/include/hdf5/serial"]
HDFLIB = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5_cpp", "-lhdf5"]
CPUS = 8


class Enough(Exception):
    """A violation was reported that leaves nothing to go on with."""


class CheckError(Exception):
    """The check itself could not run: neither a pass nor a violation."""


# ---------------------------------------------------------------- reals
def bits(x):
    """A float as the [high, low] pair the specifications use."""
    hi, lo = struct.unpack(">ii", struct.pack(">d", 0.0 if x == 0 else x))
    return [hi, lo]


def real(p):
    return float(p) if not isinstance(p, list) else struct.unpack(">d", struct.pack(">ii", *p))[0]


def hx(x):
    """A float as an exact command-line token."""
    return float(x).hex()


def hv(v):
    return " ".join(hx(x) for x in v)


# ---------------------------------------------------------------- build
def repo_sources(*groups):
    """Source files of /repo by area; globbed, so that a moved or new file is found."""
    out = []
    for g in groups:
        for f in sorted(glob.glob(os.path.join(REPO, "Source", g, "**", "*.cpp"), recursive=True)):
            out.append(f)
    return out


def repo_incs():
    dirs = set()
    for root, ds, fs in os.walk(os.path.join(REPO, "Source")):
        ds[:] = sorted(d for d in ds if d not in ("Geant",))
        if any(f.endswith((".hh", ".h", ".hpp")) for f in fs):
            dirs.add(root)
    return ["-I" + d for d in sorted(dirs)]


def header_digest():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "Source"), HARN):
        for root, ds, fs in os.walk(base):
            ds[:] = sorted(d for d in ds if d != "Geant")
            for f in sorted(fs):
                if f.endswith((".hh", ".h", ".hpp")):
                    h.update(f.encode())
                    h.update(open(os.path.join(root, f), "rb").read())
    return h.hexdigest()


def run(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.PIPE)
    kw.setdefault("timeout", 600)
    try:
        return subprocess.run(cmd, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, -999, e.stdout or b"", e.stderr or b"")


class Build:
    """Compiles /repo's sources and a harness. Objects are kept by content, so
    a second check of the same tree is quick; any change recompiles."""

    def __init__(self):
        self.cache = os.path.join(OUT, "cache")
        os.makedirs(self.cache, exist_ok=True)
        self.hdr = header_digest()
        self.jobs = {}

    def obj(self, src, flags):
        key = hashlib.sha256()
        for x in [open(src, "rb").read(), self.hdr.encode(), src.encode(), " ".join(flags).encode()]:
            key.update(x)
        out = os.path.join(self.cache, key.hexdigest()[:32] + ".o")
        return out, ["g++", "-std=gnu++17", "-O1", "-g0", "-w", "-fPIC"] + flags + ["-c", src, "-o"]

    def link(self, name, sources, flags=(), libs=(), harness_flags=(), shared=False):
        """sources: list of paths or (path, extra flags)."""
        flags = list(flags)
        incs = repo_incs() + ["-I" + HARN] + HDF
        todo, objs = [], []
        for s in sources:
            s, extra = s if isinstance(s, tuple) else (s, [])
            o, cmd = self.obj(s, flags + list(extra) + incs)
            objs.append(o)
            if not os.path.exists(o):
                todo.append((o, cmd))

        def one(t):
            o, cmd = t
            tmp = o + ".%d.tmp" % os.getpid()
            r = run(cmd + [tmp])
            if r.returncode:
                raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr.decode(errors="replace")[-3000:]))
            os.replace(tmp, o)
        with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
            list(ex.map(one, dict(todo).items()))
        key = hashlib.sha256(" ".join(objs + flags + list(libs) + [name]).encode()).hexdigest()[:16]
        exe = os.path.join(self.cache, name + "-" + key + (".so" if shared else ""))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            r = run(["g++"] + (["-shared"] if shared else []) + flags + objs + ["-o", tmp] + list(libs) + ["-lpthread"])
            if r.returncode:
                raise CheckError("link failed: %s\n%s" % (name, r.stderr.decode(errors="replace")[-3000:]))
            os.replace(tmp, exe)
        return exe


CORE = ("Tools", "Particles", "Physics")
SHIM = ["-include", os.path.join(HARN, "rngshim.hh")]


# ---------------------------------------------------------------- TLC
def java_classes():
    d = os.path.join(OUT, "java")
    src = os.path.join(VERIF, "java", "Real64.java")
    stamp = os.path.join(d, hashlib.sha256(open(src, "rb").read()).hexdigest()[:16])
    if not os.path.exists(stamp):
        os.makedirs(d, exist_ok=True)
        r = run(["javac", "-cp", TLAJARS, "-d", d, src])
        if r.returncode:
            raise CheckError("javac failed: " + r.stderr.decode())
        open(stamp, "w").close()
    return d


class Tlc:
    def __init__(self, rc, text):
        self.rc, self.text = rc, text
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", text)
        self.states = int(m[-1][1].replace(",", "")) if m else 0
        self.transitions = int(m[-1][0].replace(",", "")) if m else 0
        self.prints, self.raw = [], []
        part = None
        for line in text.splitlines():
            if part is None:
                if not re.match(r'<< ?"', line):
                    continue
                part = ""
            part += " " + line.strip()
            if part.count("<<") == part.count(">>"):
                self.raw.append(part)
                p = re.sub(r"\s+", " ", part.strip())
                self.prints.append(p.replace("<< ", "<<").replace(" >>", ">>"))
                part = None

    def texts(self, tag):
        """The string printed as <<tag, string>>, with its blanks."""
        out = []
        for p in self.raw:
            m = re.match(r'\s*<< ?"%s",\s+"(.*)" ?>>$' % tag, p)
            if m:
                out.append(re.sub(r"\\(.)", lambda x: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(x.group(1), x.group(1)), m.group(1)))
        return out

    def tagged(self, tag):
        out = []
        for p in self.prints:
            if p.startswith('<<"%s"' % tag):
                out.append(p)
        return out


def tlc(work, module, cfg=None, env=None, args=(), workers=CPUS, heap="6g", timeout=840):
    meta = os.path.join(work, "tlc-%s-%d" % (os.path.basename(cfg or module), time.monotonic_ns()))
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:Real64",
           "-Dtlc2.TLC.stopAfter=%d" % timeout,
           "-cp", TLAJARS + ":" + java_classes(), "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(args) + [module + ".tla"]
    r = run(cmd, cwd=SPEC, env=e, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    text = r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace")
    return Tlc(r.returncode, text)


# ---------------------------------------------------------------- a check
class Check:
    level = "model_checking"

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.work = os.path.join(OUT, prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.build = Build()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []        # (what, replay path)
        self.known = self.load_known()
        self.known_seen = {}

    # -- known findings
    def load_known(self):
        out = []
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == self.prop:
                out.append((m.group(2), m.group(3)))
        return out

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- model checking of a design specification
    def model(self, module, cfg=None, args=(), expect_ok=True, timeout=800, env=None, workers=CPUS):
        r = tlc(self.work, module, cfg, args=args, timeout=timeout, env=env, workers=workers)
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions
        if r.rc != 0 and expect_ok:
            raise CheckError("specification %s is wrong (TLC exit %d):\n%s" % (cfg or module, r.rc, r.text[-4000:]))
        return r

    # -- run a harness over command lines
    def observe(self, exe, cmds, timeout=300, env=None, cwd=None):
        """Feeds commands to a harness. Returns its observations; a crash or a
        hang ends them with an observation of op 'crash', which no
        specification allows."""
        e = dict(os.environ)
        e.update(env or {})
        r = run([exe], input=("\n".join(cmds) + "\n").encode(), timeout=timeout, env=e, cwd=cwd or self.work)
        obs = []
        for line in r.stdout.decode(errors="replace").splitlines():
            try:
                obs.append(json.loads(line))
            except ValueError:
                break
        if r.returncode in (90, 91):
            raise CheckError("harness misuse: " + r.stderr.decode(errors="replace")[-500:])
        if r.returncode != 0:
            why = "hang" if r.returncode == -999 else "exit %d" % r.returncode
            obs.append({"op": "crash", "why": why, "stderr": r.stderr.decode(errors="replace")[-300:]})
        return obs

    def observe_par(self, exe, cmds, **kw):
        """The same with several processes; each has its own random stream."""
        env = kw.pop("env", None) or {}
        chunks = [cmds[i::CPUS] for i in range(CPUS) if cmds[i::CPUS]]
        with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
            parts = list(ex.map(lambda t: self.observe(exe, t[1], env=dict(env, VERIF_RNG_SEED=str(self.seed * 100 + t[0])), **kw), enumerate(chunks)))
        return [o for p in parts for o in p]

    # -- vectors: every observation judged on its own
    def judge(self, module, obs, what, env=None, describe=None, timeout=800, rerun=None):
        """TLC evaluates Verdict on every observation; returns the bad ones."""
        assert not any("n" in o for o in obs), "key n is reserved"
        obs = [dict(o, n=i + 1) for i, o in enumerate(obs)]
        bad = self._judge(module, obs, env, timeout)
        self.cov["traces_validated_against_impl"] += len(obs)
        if len(self.cov["samples"]) < 6:
            for o in obs[:: max(1, len(obs) // 2)][:2]:
                self.cov["samples"].append({"check": what, "observed": shorten(o)})
        for n, clause in sorted(bad.items()):
            o = obs[n - 1]
            self.report(what, clause, o, describe(o) if describe else shorten(o))
        return bad

    def _judge(self, module, obs, env, timeout):
        if not obs:
            raise CheckError("nothing observed for " + module)
        path = os.path.join(self.work, "obs-%d.ndjson" % time.monotonic_ns())
        with open(path, "w") as f:
            for o in obs:
                f.write(json.dumps(o) + "\n")
        e = {"TRACE": path}
        e.update(env or {})
        r = tlc(self.work, module, env=e, timeout=timeout)
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions
        bad = {}
        for p in r.tagged("BAD"):
            m = re.match(r'<<"BAD", (\d+), "(.*)">>', p)
            bad[int(m.group(1))] = m.group(2)
        if r.rc != 0 or r.states != len(obs):
            if bad:
                return bad
            # an observation of a shape the specification cannot even read
            n = len(obs)
            if n == 1:
                if os.environ.get("VERIF_DEBUG"):
                    print(r.text)
                if "Error: Parsing or semantic" in r.text or r.rc in (150, 151, 152):
                    raise CheckError("TLC could not run %s:\n%s" % (module, r.text[-3000:]))
                return {obs[0]["n"]: "not an observation the specification can explain"}
            if "StackOverflow" in r.text or "OutOfMemory" in r.text or "stopAfter" in r.text or r.rc == -999:
                raise CheckError("TLC failed on %s:\n%s" % (module, r.text[-3000:]))
            first = self._judge(module, renum(obs[: n // 2]), env, timeout)
            bad.update({obs[k - 1]["n"]: v for k, v in first.items()})
            if not bad:
                second = self._judge(module, renum(obs[n // 2:]), env, timeout)
                bad.update({obs[n // 2 + k - 1]["n"]: v for k, v in second.items()})
            if not bad:
                raise CheckError("TLC failed on %s:\n%s" % (module, r.text[-3000:]))
        return bad

    # -- sessions: sequences of observations, each a behaviour of the specification
    def sessions(self, module, sess, what, env=None, describe=None, timeout=800, cfg=None):
        """Each session is a list of events. TLC decides whether each one is a
        behaviour of the specification (module's Sessions/TraceNext)."""
        path = os.path.join(self.work, "sess-%d.json" % time.monotonic_ns())
        with open(path, "w") as f:
            for s in sess:
                f.write(json.dumps({"ev": s}) + "\n")
        e = {"TRACE": path}
        e.update(env or {})
        r = tlc(self.work, module, cfg=cfg, env=e, timeout=timeout)
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions
        if r.rc in (150, 151, 152) or "Parsing or semantic" in r.text:
            raise CheckError("TLC could not run %s:\n%s" % (module, r.text[-3000:]))
        done = set()
        for p in r.tagged("DONE"):
            done.add(int(re.match(r'<<"DONE", (\d+)>>', p).group(1)))
        reach = {}
        for p in r.tagged("AT"):
            m = re.match(r'<<"AT", (\d+), (\d+)>>', p)
            reach[int(m.group(1))] = max(reach.get(int(m.group(1)), 0), int(m.group(2)))
        if r.rc != 0 and len(sess) > 1 and len(done) < len(sess):
            # find the sessions that TLC cannot even evaluate
            bad = {}
            for i, s in enumerate(sess):
                if i + 1 in done:
                    continue
                b = self.sessions(module, [s], what, env, describe, timeout, cfg)
                if b:
                    bad[i + 1] = b[1]
                if len(bad) >= 3:
                    break
            return bad
        if r.rc != 0 and len(done) == len(sess):
            raise CheckError("TLC failed on %s:\n%s" % (module, r.text[-3000:]))
        if os.environ.get("VERIF_DEBUG") and len(done) < len(sess):
            print(r.text[-6000:])
        self.cov["traces_validated_against_impl"] += len(sess)
        if len(self.cov["samples"]) < 6 and sess:
            self.cov["samples"].append({"check": what, "session": [shorten(x) for x in sess[0][:6]]})
        bad = {}
        for i, s in enumerate(sess):
            if i + 1 not in done:
                at = reach.get(i + 1, 0)
                bad[i + 1] = at
                ev = s[at] if at < len(s) else s[-1]
                self.report(what, "event %d is not a step of the specification" % (at + 1),
                            {"session": s}, describe(s, at) if describe else shorten(ev))
        return bad

    # -- behaviours: the specification simulates each run and compares at the end
    def behaviours(self, module, obs, what, env=None, describe=None, timeout=800, cfg=None):
        """Every observation is a whole run. TLC prints DONE for each one that
        some behaviour of the specification explains."""
        obs = [dict(o) for o in obs]
        bad, n = self._behaviours(module, obs, what, env, timeout, cfg)
        self.cov["traces_validated_against_impl"] += n
        if len(self.cov["samples"]) < 6 and obs:
            self.cov["samples"].append({"check": what, "run": describe(obs[0]) if describe else shorten(obs[0])})
        for i, clause in sorted(bad.items()):
            self.report(what, clause, obs[i], describe(obs[i]) if describe else shorten(obs[i]))
        return bad

    def _behaviours(self, module, obs, what, env, timeout, cfg):
        if not obs:
            raise CheckError("nothing observed for " + module)
        path = os.path.join(self.work, "runs-%d.ndjson" % time.monotonic_ns())
        with open(path, "w") as f:
            for o in obs:
                f.write(json.dumps(o) + "\n")
        r = tlc(self.work, module, cfg=cfg, env=dict(env or {}, TRACE=path), timeout=timeout)
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions
        if os.environ.get("VERIF_DEBUG"):
            print(r.text[-5000:])
        if r.rc in (150, 151, 152) or "Parsing or semantic" in r.text or "stopAfter" in r.text or r.rc == -999:
            raise CheckError("TLC could not run %s:\n%s" % (module, r.text[-3000:]))
        done = {int(re.match(r'<<"DONE", (\d+)>>', p).group(1)) - 1 for p in r.tagged("DONE")}
        bad = {}
        for p in r.tagged("BAD"):
            m = re.match(r'<<"BAD", (\d+), "(.*)">>', p)
            if int(m.group(1)) - 1 not in done:
                bad.setdefault(int(m.group(1)) - 1, m.group(2))
        missing = [i for i in range(len(obs)) if i not in done and i not in bad]
        if missing and r.rc == 0:
            raise CheckError("runs without a verdict in %s:\n%s" % (module, r.text[-3000:]))
        if missing:
            if len(obs) == 1:
                return {0: "not a run the specification can explain"}, 1
            if len(bad) < 5:
                half = len(missing) // 2
                for part in (missing[:half], missing[half:]) if half else (missing,):
                    if len(part) == len(obs) or len(bad) >= 5:
                        continue
                    b, _ = self._behaviours(module, [obs[i] for i in part], what, env, timeout, cfg)
                    bad.update({part[k]: v for k, v in b.items()})
        return bad, len(obs)

    # -- findings
    def report(self, what, clause, data, text):
        ident = data.get("finding") if isinstance(data, dict) else None
        for kid, ktext in self.known:
            if ident == kid:
                self.known_seen[kid] = ktext
                return
        path = os.path.join(self.work, "replay-%d.json" % (len(self.violations) + 1))
        if len(self.violations) < 20:
            with open(path, "w") as f:
                json.dump({"property": self.prop, "check": what, "clause": clause, "what": text, "data": data,
                           "seed": self.seed, "tier": self.tier}, f, indent=1)
        self.violations.append((what, clause, text, path))

    def give_up(self, what, clause, data):
        self.report(what, clause, data, shorten(data))
        raise Enough()

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for kid, ktext in self.known:
            if kid in self.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, ktext))
        if self.violations:
            for what, clause, text, path in self.violations[:10]:
                print("  %s: %s: %s" % (what, clause, json.dumps(text)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][3]))
            return 1
        print("ok: %s (%d observations or behaviours of the code, %d model states, %.1f s)" % (
            self.prop, self.cov["traces_validated_against_impl"], self.cov["states"], time.time() - self.t0))
        return 0


def renum(obs):
    return [dict(o, n=i + 1) for i, o in enumerate(obs)]


def shorten(o):
    """An observation with its doubles readable and long lists cut."""
    if isinstance(o, list):
        if len(o) == 2 and all(isinstance(x, int) and not isinstance(x, bool) for x in o) and (abs(o[0]) > 1000000 or o == [0, 0]):
            return real(o)
        s = [shorten(x) for x in o[:12]]
        return s + ["... %d more" % (len(o) - 12)] if len(o) > 12 else s
    if isinstance(o, dict):
        return {k: shorten(v) for k, v in o.items()}
    return o
