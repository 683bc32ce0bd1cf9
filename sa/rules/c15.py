"""C15: environments derived from one another share no mutable state."""
from .envworld import *
from .shapes import arg_list

TECHNIQUE = ("path-sensitive abstract interpretation of histories of deriving and modifying environments: the directory, "
             "variables and descriptors that programs of each environment are given are compared with those of independent "
             "copies, and the process's own variables with what the initial environment did to them")
LOC = "environ.py:Environment.__call__"
RED = "Redirects(Redirect(0, 0, borrowed=True), Redirect(1, '/d1'))"


class M(object):
    """What an environment is expected to be."""

    def __init__(self, cwd, exports, fds, interactive=False, initial=False):
        self.cwd, self.exports, self.fds, self.interactive, self.initial = cwd, dict(exports), dict(fds), interactive, initial

    def copy(self):
        return M(self.cwd, self.exports, self.fds, self.interactive)

    def cd(self, p):
        self.cwd = posixpath.normpath(posixpath.join(self.cwd, p))


DEFAULT = {0: "tty0", 1: "tty1", 2: "tmp"}
D1 = {0: "tty0", 1: "/d1"}
PARENTS = (
    ("environ.Environment()", lambda: M("/start", PROC, DEFAULT, initial=True)),
    ("environ.Environment('/w', {'A': '1', 'B': '2'}, redirects=%s)" % RED, lambda: M("/w", {"A": "1", "B": "2"}, D1)),
    ("environ.Environment('/w', {'A': '1', 'B': '2'}, True, redirects=%s)" % RED,
     lambda: M("/w", {"A": "1", "B": "2"}, D1, True)),
    ("environ.Environment('/w', {}, redirects=%s)" % RED, lambda: M("/w", {}, D1)),
)


def over(**kw):
    def f(m):
        m = m.copy()
        if "cd" in kw:
            m.cd(kw["cd"])
        for k in ("exports", "fds", "interactive"):
            if k in kw:
                setattr(m, k, dict(kw[k]) if k != "interactive" else kw[k])
        return m
    return f


DERIVED = (
    ("e()", over()), ("e()()", over()),
    ("e(cwd='/v')", over(cd="/v")), ("e('/v')", over(cd="/v")), ("e['/v']", over(cd="/v")),
    ("e('..')", over(cd="..")),
    ("e(exports={})", over(exports={})), ("e(exports={'Z': '9'})", over(exports={"Z": "9"})),
    ("e(exports={})()", over(exports={})),
    ("e('/v')(exports={'Z': '9'})", over(cd="/v", exports={"Z": "9"})),
    ("e(redirects=Redirects())", over(fds={})),
    ("e(redirects=Redirects(Redirect(2, '/o')))", over(fds={2: "/o"})),
    ("e(redirects=Redirects(Redirect(2, '/o')))()", over(fds={2: "/o"})),
    ("e(interactive=False)", over(interactive=False)), ("e(interactive=True)", over(interactive=True)),
    ("e(interactive=False)('/v')", over(cd="/v", interactive=False)),
)


def change(**kw):
    def f(m):
        if "cd" in kw:
            m.cd(kw["cd"])
        m.exports.update(kw.get("add", {}))
        m.fds.update(kw.get("fds", {}))
        for k in kw.get("drop", ()):
            m.exports.pop(k, None)
    return f


CHANGES = (
    ("pass", change()),
    ("t._cd('/v')", change(cd="/v")),
    ("builtins.CdBuiltin(t, ['cd', '/v']).run()", change(cd="/v")),
    ("environ.EnvScope(env=t)['exports']['N'] = 'new'", change(add={"N": "new"})),
    ("environ.EnvScope(env=t)['exports'].update({'A': 'changed', 'P': 'changed'})",
     change(add={"A": "changed", "P": "changed"})),
    ("environ.EnvScope(env=t)['exports'].pop('A', None)", change(drop=("A",))),
    ("t | '/m'", change(fds={1: "/m"})),
    ("'/i' | t; Redirect(2, '/m2') | t", change(fds={0: "/i", 2: "/m2"})),
    ("t('/v')._cd('/')", change()),
)


def check(chk):
    chk.rule("independent", "programs of every environment are given the directory, variables and descriptors that it has "
                            "apart from what was done to other environments")
    chk.rule("process", "only what is done to the variables of the initial environment reaches the process's own")
    chk.rule("working-directory", "the shell process moves exactly with the interactive environments")
    chk.rule("reached", "programs of both environments are started")
    chk.rule("flags", "changing the ownership of the descriptors of one environment leaves those of the others as they were")
    for p, pm in PARENTS:
        for d, dm in DERIVED:
            for c, cm in CHANGES:
                for t in ("e", "d"):
                    if c == "pass" and t == "d" or "{}, redirects" in p and c[:4] not in ("pass", "envi"):
                        continue
                    one(chk, p, pm(), d, dm, c, cm, t)
    for target in ("e", "d", "g"):
        flags(chk, target)


def describe(c):
    return {"tty": lambda: "tty%d" % c[1], "file": lambda: getattr(c[1], "v", c[1]), "tmp": lambda: "tmp"}.get(c[0], lambda: repr(c))()


def one(chk, p, e, d, dm, c, cm, t):
    start = "/start"
    if e.interactive:
        start = e.cwd
    dd = dm(e)
    if dd.interactive:
        start = dd.cwd
    target = e if t == "e" else dd
    was = target.cwd
    cm(target)
    if c == "t('/v')._cd('/')" and target.interactive:
        start = "/"
    elif target.interactive and "cd" in c.lower():
        start = target.cwd
    l = World(chk, "def f():\n    e = %s\n    d = %s\n    t = %s\n    %s\n    return e.aa.run(), d.bb.run()\n" % (p, d, t, c),
              fork="both")
    l.init_log()
    what = "e is %s, d is %s, %s with t = %s" % (p.replace("environ.", ""), d, c, t)
    seen = set()
    for s, v in l.start():
        for ev in [x for x in s.trace() if x.kind == "stop" and x.name.startswith("exec")]:
            lst = arg_list(s, ev)
            name = lst[0].v if lst and isinstance(lst[0], K) else None
            m = {"aa": e, "bb": dd}.get(name)
            if m is None:
                continue
            seen.add(name)
            who = "e" if name == "aa" else "d"
            cwd = s.user["cwd"]
            chk.ob("independent", cwd == K(m.cwd), LOC, "%s: programs of %s run in %r" % (what, who, cwd), s)
            env = plain(s, ev.args[2]) if len(ev.args) > 2 else PROC
            chk.ob("independent", env == m.exports, LOC, "%s: programs of %s have variables %r" % (what, who, env), s)
            fds = {n: describe(x[0]) for n, x in ev.extra.items() if n in (0, 1, 2)}
            chk.ob("independent", fds == m.fds, LOC, "%s: programs of %s have descriptors %r instead of %r" % (
                what, who, fds, m.fds), s)
        if not s.user.get("child"):
            chk.ob("working-directory", s.user["cwd"] == K(start), LOC, "%s: the shell process is in %r" % (
                what, s.user["cwd"]), s)
        proc = plain(s, l.proc)
        want = e.exports if e.initial else PROC
        chk.ob("process", proc == want, LOC, "%s: the variables of the process are %r" % (what, proc), s)
    chk.ob("reached", seen == {"aa", "bb"}, LOC, "%s: only programs of %s are started" % (what, sorted(seen)))


def flags(chk, target):
    """Redirects.borrow() changes redirections in place."""
    src = ("def f():\n    e = environ.Environment('/w', {}, redirects=Redirects(Redirect(0, 8), Redirect(1, 9)))\n"
           "    d = e()\n    g = d('/v')\n    %s._redirects.borrow()\n"
           "    return [[r.borrowed for r in x._redirects.redirects.values()] for x in (e, d, g)]\n" % target)
    l = World(chk, src)
    n = 0
    for s, v in l.start():
        n += 1
        want = [[x == target] * 2 for x in ("e", "d", "g")]
        chk.ob("flags", plain(s, v) == want, LOC, "borrowing the descriptors of %s leaves those of e, d and g %r" % (
            target, plain(s, v) if not isinstance(v, Abrupt) else "unavailable"), s)
