"""C16: cd is all or nothing and moves the process only in interactive environments."""
from .envworld import *
from .shapes import arg_list

TECHNIQUE = ("path-sensitive abstract interpretation of changing directories over an abstract file system, with a failure "
             "injected at each external call; the directory programs are given and that of the process are compared with "
             "those before or after")
LOC = "environ.py:Environment._cd"
# path, where it leads from /w; None if nowhere
PATHS = (("'/v'", "/v"), ("'sub'", "/w/sub"), ("'..'", "/"), ("'.'", "/w"), ("'/w/sub/'", "/w/sub"), ("'~'", "/home/u"),
         ("'~/d'", "/home/u/d"), ("'sub/..'", "/w"), ("'/'", "/"), ("'/w/../v'", "/v"), ("''", "/w"),
         ("'missing'", None), ("'/missing'", None), ("'file'", None), ("'/w/file'", None), ("'sub/missing'", None),
         ("'~/missing'", None), ("'sub/../file'", None), ("'/secret'", "denied"), ("'../secret'", "denied"))
SETUP = (
    ("environ.Environment('/w', {'A': '1'})", False), ("environ.Environment('/w', {'A': '1'}, True)", True),
    ("environ.Environment('/start', {'A': '1'}, True)('/w')", True),
    ("environ.Environment('/w', {'A': '1'}, True)(interactive=False)", False),
    ("environ.Environment('/v', {'A': '1'})(cwd='/w', interactive=True)", True),
)


def check(chk):
    chk.rule("arrives", "changing to a directory that exists and can be entered succeeds")
    chk.rule("refuses", "changing to what is not a directory, or may not be entered, raises in an interactive environment")
    chk.rule("together", "afterwards programs run in the new directory if the change succeeded and in the old one otherwise, "
                         "and the process has moved along with an interactive environment and never with another")
    chk.rule("elsewhere", "deriving an environment moves the process only if the new one is interactive, to its directory")
    for env, inter in SETUP:
        for path, dest in PATHS:
            one(chk, env, inter, "e._cd(%s)" % path, dest)
            if "Environment('/w', {'A': '1'}, True)" in env or not inter:
                one(chk, env, inter, "builtins.CdBuiltin(e, ['cd', %s]).run()" % path, dest)
    for env, inter in SETUP[:2]:
        one(chk, env, inter, "builtins.CdBuiltin(e, ['cd']).run()", "/home/u")
        one(chk, env, inter, "builtins.CdBuiltin(e, ['cd', 'sub', '..', 'sub']).run()", "/w/sub")
        one(chk, env, inter, "builtins.CdBuiltin(e, ['cd', 'PARENT']).run()", "/")
        one(chk, env, inter, "builtins.CdBuiltin(e, ['cd', 'ROOT', 'v']).run()", "/v")
        one(chk, env, inter, "e._cd('/v')._cd('/missing')", None, kept="/v")
        one(chk, env, inter, "e._cd('/v')._cd('../w/sub')", "/w/sub")
        one(chk, env, inter, "e._cd('sub')._cd('/secret')", "denied", kept="/w/sub")
        injected(chk, env, inter)
        for use in ("bound", "used", "derived"):
            for path, dest in (("'/v'", "/v"), ("'sub'", "/w/sub"), ("'missing'", None)):
                one(chk, "%s(%s)" % (use, env), inter, "e._cd(%s)" % path, dest)
    for path, dest in PATHS:
        derive(chk, path, dest)


def world(chk, env, ops):
    l = World(chk, HELPERS + "def f():\n    e = %s\n    ok = True\n    try:\n        %s\n    except BaseException:\n        ok = False\n"
                   "    e.aa.run()\n    return ok\n" % (env, ops), fork="both")
    return l.init_log()


def moved(chk, l, what, inter, before, dest):
    """Checks every path; whether any succeeded, and any failed."""
    res = set()
    for s, v in l.start():
        if s.user.get("child"):
            continue
        if isinstance(v, Abrupt) or v not in (TRUE, FALSE):
            chk.ob("together", False, LOC, "%s: programs cannot be run afterwards" % what, s)
            continue
        res.add(v.v)
        proc = s.user["cwd"]
        want = (dest if v.v else before) if inter else "/w" if ", True)" in what else "/start"
        chk.ob("together", proc == K(want), LOC, "%s %s: the process is in %r instead of %r" % (
            what, "succeeds" if v.v else "raises", proc, want), s)
    return res


def one(chk, env, inter, op, dest, kept="/w"):
    what = "%s in %s" % (op, env)
    l = world(chk, env, op)
    if dest == "denied":
        # without moving, an environment may accept it
        dest = None if inter else "/secret"
        either = not inter
    else:
        either = False
    res = moved(chk, l, what, inter, kept, dest)
    if dest is None:
        chk.ob("refuses", res == {False}, LOC, "%s does not raise" % what)
    elif not either:
        chk.ob("arrives", res == {True}, LOC, "%s raises" % what)
    children(chk, env, op, what, kept, dest if dest is not None else kept, either)


def children(chk, env, op, what, before, after, either=False):
    l = World(chk, HELPERS + "def f():\n    e = %s\n    ok = True\n    try:\n        %s\n    except BaseException:\n        ok = False\n"
                   "    e.aa('yes' if ok else 'no').run()\n" % (env, op), fork="child")
    l.init_log()
    n = 0
    for s, v in l.start():
        for ev in [x for x in s.trace() if x.kind == "stop" and x.name.startswith("exec")]:
            n += 1
            lst = arg_list(s, ev)
            ok = lst[-1] == K("yes")
            cwd = s.user["cwd"]
            want = after if ok else before
            chk.ob("together", cwd == K(want), LOC, "%s %s: programs run in %r instead of %r" % (
                what, "succeeds" if ok else "raises", cwd, want), s)
    if not either:
        chk.ob("together", n > 0, LOC, "%s: programs cannot be run afterwards" % what)


def injected(chk, env, inter):
    """A failure at each system call made while changing the directory."""
    for path, to in (("'/v'", "/v"), ("'sub'", "/w/sub")):
        what = "e._cd(%s) meeting a failing system call in %s" % (path, env)
        l = world(chk, env, "os.sync(); e._cd(%s); os.sync()" % path)

        def toggle(it, st, recv, args, kwargs):
            st.user["armed"] = not st.user.get("armed")
            return [(st, NONE)]
        l.hooks.ext["os.sync"] = toggle

        def raises(it, st, name, recv, args):
            if st.user.get("armed") and name.startswith("os.") and name.count(".") == 1 and name != "os.sync":
                return [("OSError", True)]
            return ()

        def failed(it, st, v):
            st.user["armed"] = False
            return v
        l.hooks.raises, l.hooks.failed = raises, failed
        res = moved(chk, l, what, inter, "/w", to)
        chk.ob("arrives", True in res, LOC, "%s always raises" % what)


def derive(chk, path, dest):
    for how, inter in (("e(%s)", True), ("e[%s]", True), ("e(cwd=%s, interactive=False)", False)):
        for env, einter in SETUP[:2]:
            if how != "e(cwd=%s, interactive=False)":
                inter = einter
            what = how % path + " with e = " + env
            l = World(chk, "import os\ndef f():\n    e = %s\n    try:\n        %s\n        ok = True\n    except BaseException:\n"
                           "        ok = False\n    return ok, e._cwd\n" % (env, how % path))
            for s, v in l.start():
                r = plain(s, v) if not isinstance(v, Abrupt) else None
                if r is None or dest == "denied" and not inter:
                    continue
                to = None if dest == "denied" else dest
                chk.ob("arrives" if to else "refuses", r[0] == bool(to), LOC, "%s %s" % (
                    what, "raises" if to else "does not raise"), s)
                want = "/w" if einter else "/start"
                if inter and r[0]:
                    want = to
                chk.ob("elsewhere", s.user["cwd"] == K(want), LOC, "%s: the process is in %r" % (what, s.user["cwd"]), s)
