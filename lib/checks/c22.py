"""C22: field and particle-list dumps (spec Output, OutputGen, OutputTrace)."""
from outputs import *


def lists_session(r, path):
    lists, body = [], []
    for i in range(r.randrange(1, 4)):
        name = "beam%d" % i
        for s in range(r.randrange(1, 3)):
            l = len(lists)
            lists.append(deflist(name, [rpart(r, alive=r.random() < 0.8) for _ in range(r.randrange(0, 9))]))
            body.append("props set%d %d" % (s, l))
            if r.random() < 0.3:
                body.append("list tracks%d %d" % (l, l))
    return "session %s %s %s %s end" % (path, r.choice(["none", "SI"]), " ".join(lists), " ".join(body))


def main(c):
    exe, dump = build_output(c), runs.build_dump(c)
    calls = [x for x in tla_calls(c.rng, c, "OutputGen", "OutputGen" if not c.thorough else "OutputDeep") if any(y["o"] == "props" for y in x)]
    judge_sessions(c, exe, dump, lambda r, p: replay(r, calls.pop(), p), min(len(calls), c.n(100, 1500)), "behaviours of OutputGen with list dumps", "gen")
    judge_sessions(c, exe, dump, lists_session, c.n(120, 1500), "list dumps", "lists")
    judge_sessions(c, exe, dump, field_session, c.n(150, 2000), "field dumps", "fields")
