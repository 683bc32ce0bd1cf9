"""C06: what a launch leaves open in the shell."""
from .shapes import *

TECHNIQUE = ("path-sensitive abstract interpretation of pipeline launches with a per-descriptor ownership typestate "
             "(open/closed/lent) in the shell, over pipelines of every kind of structure")

# pipes of these can get number 0
LOW = ("env.aa | env.bb | env.cc", "(env.aa + env.bb) | env.cc", "env.aa(env.bb) | Redirect(0, '/in')",
       "gen() | env.aa", "['x', 'y'] | env.aa | env.bb")


def check(chk):
    chk.rule("launch", "the launch ends normally")
    chk.rule("released", "every descriptor made for the stages' sides is closed in the shell when the launch ends")
    chk.rule("once", "the shell closes no descriptor number that is not open, nor uses one")
    chk.rule("lent", "no descriptor the shell had before (its own or the user's) is closed or replaced")
    chk.rule("ends", "the shell's own ends (pipes it reads or feeds) stay open")
    chk.assumptions += ["kernel semantics of descriptors as modelled in launch.py"]
    rules = {"kept": "released", "twice": "once", "lent": "lent", "lost": "ends"}
    def low(l):
        l.st.user["fds"] = {n: c for n, c in l.hooks.table(l.st).items() if n != 0}
    few = [sh for sh in shapes() if sh.expr in LOW]
    rs = list(launched(chk, fork="parent"))
    for r in launched(chk, few, ("run",), "parent", low):
        r.note = " in a shell without standard input"
        rs.append(r)
    for r in rs:
        n = 0
        b = Binding(PIPE("out", "w") if not r.mode.startswith("run") else T1)
        for s, v, _ in r.errors:
            chk.ob("launch", False, exc_loc(s, v) or "pipeline/base.py:Pipeline.run",
                   "launching %s fails with %s" % (r.name, cls_name(exc_class(s, v))), s)
        chk.ob("launch", bool(r.parents), "pipeline/base.py:Pipeline.run", "launching %s does not end normally" % r.name)
        for s, v in r.parents:
            report(chk, r, parent_problems(r, s, b), rules, "redir.py:Redirects.close_source_fds", s)
