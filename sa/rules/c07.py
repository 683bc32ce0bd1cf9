"""C07: every stage of every kind of pipeline is connected as written."""
from .shapes import *

TECHNIQUE = ("path-sensitive abstract interpretation of pipeline launches over a descriptor-table domain: each "
             "stage's table at exec is unified with the connections the expression denotes")


def check(chk):
    chk.rule("launch", "every stage of the expression is started")
    chk.rule("connection", "each standard descriptor of each stage is the one the expression denotes")
    chk.rule("argument", "a pipeline or function argument is a /dev/fd name of its pipe")
    chk.rule("python", "Python stages and the reader use exactly the pipes' ends meant for them")
    chk.rule("members", "the running pipeline consists of all processes and Python stages of all its parts")
    chk.assumptions += ["kernel semantics of pipe, dup, dup2, open, close and close-on-exec as modelled in launch.py"]
    rules = {"wrong": "connection", "stage": "connection", "argument": "argument", "shared": "python",
             "unread": "python", "watched": "python", "lost": "python"}
    modes = None
    for r in launched(chk):
        judge(chk, r, rules)
        if r.mode.startswith("run"):
            members(chk, r)
    for r in launched(chk, [Shape(s.expr, s.stages, s.py, s.shell, s.args, s.pre, ("bytes",))
                            for s in shapes() if "iter" in s.modes], ("bytes",)):
        judge(chk, r, rules)


def members(chk, r):
    it = r.launch.it
    for s, v in r.parents:
        writers = [e for e in s.trace() if e.kind == "call" and e.name == ".add_writer"]
        want = sorted([1000 + i for i in range(1, s.user.get("forks", 0) + 1)])
        got, funcs = [], 0
        ps = list(it.getattr(s, v, "processes", None, r.launch.run.fr))
        seq = it.known_seq(ps[0][0], ps[0][1]) if len(ps) == 1 and not isinstance(ps[0][1], Abrupt) else None
        if seq is None:
            chk.ob("members", False, "pipeline/running.py:RunningPipeline", "the processes of %s are unknown" % r.name, s)
            continue
        for p in seq:
            for s2, pid in it.getattr(s, p, "pid", None, r.launch.run.fr):
                if isinstance(pid, K):
                    got.append(pid.v)
                else:
                    funcs += 1
        chk.ob("members", sorted(got) == want, "pipeline/base.py:Pipeline.run",
               "in %s, the running pipeline has %d of %d started processes" % (r.name, len(got), len(want)), s,
               "%s: processes %s" % (r.name, want))
        chk.ob("members", funcs == len(writers), "pipeline/base.py:Pipeline.run",
               "in %s, the running pipeline has %d of %d Python stages" % (r.name, funcs, len(writers)), s)
