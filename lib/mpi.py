"""A broker for ranks built with harness/mpi: decides, one step at a time, what
the communication of a run does. A schedule is a word over the ranks (from
GatherGen) and a seed; while all ranks wait, the first rank of the word that
can go on does, and after the word a random one.

The rules are those of spec/Gather: messages between two ranks do not overtake
each other, a standard send may wait for its receive or not, a receive from
anyone takes the first message that fits of any rank."""
import os, random, select, socket, struct, subprocess, time
from vf import CheckError

INIT, FINALIZE, ABORT, SEND, ISEND, RECV, IRECV, WAIT, TEST, PROBE, IPROBE, COLL = range(1, 13)
STANDARD, SYNCHRONOUS, BUFFERED = range(3)
BARRIER, TOALL, TOROOT, EACH = range(4)
OK, TRUNCATED, NORANK, MISMATCH = 0, 2, 3, 4


class Gone(Exception):
    pass


class Late(Exception):
    pass


class Rank:
    def __init__(self, i, proc, sock):
        self.i, self.proc, self.sock = i, proc, sock
        self.req = None             # what it waits for
        self.gone = self.inited = self.final = False
        self.reqs = {}              # of non-blocking calls
        self.nreq = 0
        self.posted = []            # receives: dicts with src, tag, max, done(reply)
        self.ncoll = 0


class Broker:
    """eager: chance that a standard send does not wait."""

    def __init__(self, n, start, word=(), seed=0, eager=0.5, first=None, last=None, limit=60):
        self.n, self.r, self.word, self.eager = n, random.Random(seed), list(word), eager
        self.first, self.last, self.limit = first, last, limit
        self.box = [[] for _ in range(n)]      # messages to each rank, in the order they were sent
        self.colls = {}
        self.ranks = []
        self.steps = 0
        for i in range(n):
            a, b = socket.socketpair()
            p = start(i, b.fileno())
            b.close()
            self.ranks.append(Rank(i, p, a))
        self.end = time.time() + limit

    # ------------------------------------------------------------- the wire
    def _recv(self, s, n):
        out = b""
        while len(out) < n:
            left = self.end - time.time()
            if left <= 0 or not select.select([s], [], [], left)[0]:
                raise Late
            try:
                x = s.recv(n - len(out))
            except ConnectionError:
                raise Gone
            if not x:
                raise Gone
            out += x
        return out

    def next(self, k):
        """Waits for the next request of a rank."""
        try:
            h = self._recv(k.sock, 24)
            op, a, b, c, n = struct.unpack("<4iQ", h)
            k.req = (op, a, b, c, self._recv(k.sock, n) if n else b"")
            self.arrive(k)
        except Gone:
            k.gone, k.req = True, None

    def reply(self, k, status=OK, source=0, tag=0, flag=0, data=b""):
        k.req = None
        try:
            k.sock.sendall(struct.pack("<4iQ", status, source, tag, flag, len(data)) + data)
        except OSError:
            pass
        self.next(k)

    # ---------------------------------------------------------- the rules
    def arrive(self, k):
        op, a, b, c, data = k.req
        if op in (SEND, ISEND):
            if not 0 <= a < self.n:
                k.ready = ("bad", NORANK)
                return
            waits = c == SYNCHRONOUS or (c == STANDARD and self.r.random() >= self.eager)
            m = {"src": k.i, "tag": b, "data": data, "waits": waits, "got": False}
            self.box[a].append(m)
            if op == ISEND:
                k.nreq += 1
                k.reqs[k.nreq] = m
            k.msg = m
        elif op in (RECV, IRECV):
            if not -1 <= a < self.n:
                k.ready = ("bad", NORANK)
                return
            p = {"src": a, "tag": b, "max": struct.unpack("<Q", data)[0], "msg": None}
            k.posted.append(p)
            if op == IRECV:
                k.nreq += 1
                k.reqs[k.nreq] = p
            k.post = p
        elif op == COLL:
            k.ncoll += 1
            self.colls.setdefault(k.ncoll, {})[k.i] = (a, b, c, data)
        k.ready = None

    def fits(self, m, src, tag):
        return not m["got"] and (src == -1 or m["src"] == src) and (tag == -1 or m["tag"] == tag)

    def candidates(self, d, src, tag):
        seen, out = set(), []
        for m in self.box[d]:
            if self.fits(m, src, tag) and m["src"] not in seen:
                seen.add(m["src"])
                out.append(m)
        return out

    def matches(self):
        """Receives and messages that may meet."""
        for k in self.ranks:
            for j, p in enumerate(k.posted):
                for m in self.candidates(k.i, p["src"], p["tag"]):
                    if not any(self.fits(m, q["src"], q["tag"]) for q in k.posted[:j]):
                        yield k, p, m

    def finished(self, x):
        return x["msg"] is not None if "max" in x else (x["got"] or not x["waits"])

    def actions(self):
        """(rank, what to do) for everything that can happen now."""
        out = []
        for k, p, m in self.matches():
            out.append((k.i, lambda k=k, p=p, m=m: self.meet(k, p, m)))
        for k in self.ranks:
            if k.req is None:
                continue
            op, a, b, c, data = k.req
            if k.ready:
                out.append((k.i, lambda k=k: self.reply(k, k.ready[1])))
            elif op == INIT:
                out.append((k.i, lambda k=k: self.set(k, "inited")))
            elif op == FINALIZE:
                out.append((k.i, lambda k=k: self.set(k, "final")))
            elif op == SEND and self.finished(k.msg):
                out.append((k.i, lambda k=k: self.reply(k)))
            elif op == RECV and k.post["msg"]:
                out.append((k.i, lambda k=k: self.answer(k, k.post)))
            elif op in (ISEND, IRECV):
                out.append((k.i, lambda k=k: self.reply(k, OK, k.nreq)))
            elif op in (WAIT, TEST):
                x = k.reqs[a]
                if self.finished(x):
                    out.append((k.i, lambda k=k, a=a: self.answer(k, k.reqs.pop(a), 1)))
                if op == TEST:
                    out.append((k.i, lambda k=k: self.reply(k, OK, 0, 0, 0)))
            elif op in (PROBE, IPROBE):
                for m in self.candidates(k.i, a, b):
                    out.append((k.i, lambda k=k, m=m: self.reply(k, OK, m["src"], m["tag"], 1, struct.pack("<Q", len(m["data"])))))
                if op == IPROBE:
                    out.append((k.i, lambda k=k: self.reply(k)))
            elif op == COLL and self.coll_done(k):
                out.append((k.i, lambda k=k: self.coll(k)))
        return out

    def set(self, k, what):
        setattr(k, what, True)
        self.reply(k)

    def meet(self, k, p, m):
        k.posted.remove(p)
        self.box[k.i].remove(m)
        m["got"] = True
        p["msg"] = m

    def answer(self, k, x, flag=0):
        if "max" not in x:
            return self.reply(k, OK, 0, 0, 1)
        m = x["msg"]
        if len(m["data"]) > x["max"]:
            return self.reply(k, TRUNCATED)
        self.reply(k, OK, m["src"], m["tag"], flag, m["data"])

    def coll_done(self, k):
        kind, root, shape, _ = self.colls[k.ncoll][k.i]
        all_ = self.colls[k.ncoll]
        if len({x[:3] for x in all_.values()}) > 1:
            return True                    # unmatched: an error
        if kind == TOALL:
            return k.i == root and self.eager > 0 or root in all_ and (self.eager > 0 or len(all_) == self.n)
        if kind == TOROOT and k.i != root and self.eager > 0:
            return True
        return len(all_) == self.n

    def coll(self, k):
        all_ = self.colls[k.ncoll]
        kind, root, shape, _ = all_[k.i]
        if len({x[:3] for x in all_.values()}) > 1:
            return self.reply(k, MISMATCH)
        if kind == TOALL:
            parts = [all_[root][3]]
        elif kind == BARRIER or (kind == TOROOT and k.i != root):
            parts = []
        else:
            parts = [all_[i][3] for i in range(self.n)]
        self.reply(k, OK, 0, 0, 0, b"".join(struct.pack("<Q", len(x)) + x for x in parts))

    # ------------------------------------------------------------ running
    def choose(self, acts):
        while self.word:
            w = self.word.pop(0)
            x = [a for i, a in acts if i == w]
            if x:
                return self.r.choice(x)
        if self.first is not None or self.last is not None:
            x = [a for i, a in acts if i == self.first] or [a for i, a in acts if i != self.last]
            if x and self.r.random() < 0.97:
                return self.r.choice(x)
        return self.r.choice(acts)[1]

    def run(self):
        """What became of it: statuses of the ranks, or why it does not end."""
        why = ""
        try:
            for k in self.ranks:
                self.next(k)
            while True:
                acts = self.actions()
                if not acts:
                    break
                self.steps += 1
                if self.steps > 200000:
                    why = "the ranks do not come to an end"
                    break
                self.choose(acts)()
            if not why and any(k.req for k in self.ranks):
                if not any(k.gone and not k.final for k in self.ranks):
                    why = "deadlock"
        except Late:
            why = "a rank does not answer"
        codes = []
        for k in self.ranks:
            k.sock.close()
            try:
                k.proc.wait(10 if not k.req else 3)
            except subprocess.TimeoutExpired:
                k.proc.kill()
                k.proc.wait()
            codes.append(k.proc.returncode)
        if not why and any(codes):
            why = "a rank fails"
        if not why and any(not k.final for k in self.ranks):
            why = "a rank ends without MPI_Finalize"
        return why, codes
