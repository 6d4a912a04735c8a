"""Makes run after run with the real Python module under the stand-in for the
allocator and says what is held after each. Reads sessions, one per line: a
list of calls; each session runs in a process of its own.
Usage: heapmanager.py DIRECTORY-OF-MODULE HEAP-LIBRARY"""
import ctypes, gc, importlib.util, json, os, sys
sys.argv, lib = sys.argv[:2], sys.argv[2]
spec = importlib.util.spec_from_file_location("manager", os.path.join(os.path.dirname(os.path.abspath(__file__)), "manager.py"))
M = importlib.util.module_from_spec(spec)
spec.loader.exec_module(M)
H = ctypes.CDLL(lib)
H.verif_heap_left.restype = H.verif_heap_faults.restype = ctypes.c_ulonglong


def session(s, w):
    if M.SCRIPTED:
        M.LIB.verif_rng(1, float.fromhex(s["u"]), 0)
    m, left = M.Q.RunManager(), []
    for c in s["calls"]:
        if c["c"] == "new":
            m = M.Q.RunManager()
            continue
        M.call(m, c)
        if c["c"] == "run":
            for a in (m.getInput(), m.getElectrons(), m.getPositrons(), m.getPhotons()):
                a.sum()
            del a
            gc.collect()
            left.append(H.verif_heap_left())
    del m
    gc.collect()
    os.write(w, json.dumps({"left": left, "faults": H.verif_heap_faults()}).encode())


for line in sys.stdin:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            session(json.loads(line), w)
            os._exit(0)
        except BaseException as e:
            print(e, file=sys.stderr)
            os._exit(3)
    os.close(w)
    text = b""
    while True:
        part = os.read(r, 1 << 16)
        if not part:
            break
        text += part
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    o = json.loads(text) if text else {"left": [], "faults": 0}
    o["status"] = os.waitstatus_to_exitcode(st)
    print(json.dumps(o), flush=True)
