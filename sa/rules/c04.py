"""C04: exec is reached only with the complete context that was asked for."""
from .shapes import *
from .envworld import HELPERS, USES

TECHNIQUE = ("path-sensitive abstract interpretation of the forked child with system call failures injected at every "
             "call: exec must not be reachable after a failure, and its arguments are compared with the request")
CALLS = ("os.open", "os.dup", "os.dup2", "os.chdir", "os.set_inheritable", "fcntl.fcntl", "os.fchdir")
LOC = "pipeline/command.py:Command._child"


def check(chk):
    chk.rule("refused", "no program is executed on a path on which opening or installing a redirection or changing the "
             "directory failed")
    chk.rule("redirected", "when a program is executed every one of its redirections is in place")
    chk.rule("directory", "the working directory when a program is executed is its environment's")
    chk.rule("variables", "a program is executed with its environment's variables")
    chk.rule("arguments", "a program is executed with the complete argument list in order")
    chk.rule("lookup", "the program looked up is the first argument, on the PATH")
    chk.rule("reached", "the program is executed when nothing fails")
    chk.assumptions += ["exec either replaces the process or raises"]
    environments(chk)
    arguments(chk)
    for r in launched(chk, modes=("run",)):
        b = Binding(T1)
        for s, ev in r.children:
            report(chk, r, child_problems(r, s, ev, b)[1], {"wrong": "redirected"}, "redir.py:Redirects.perform", s)
            context(chk, s, ev, r.shape.args, r.name, K("/start"), {"A": "b"})
    failures(chk)


def execs(s):
    return [e for e in s.trace() if e.kind == "stop" and e.name.startswith("exec")]


def content(st, v):
    """A mapping as {key: value}, or a name of something outside."""
    v = st.res(v)
    if isinstance(v, Ref) and isinstance(st.obj(v).d, dict):
        ob = st.obj(v)
        if ob.meta.get("open"):
            return ("open", tuple(ob.meta.get("bases", ())), {k.v: x for k, x in ob.d.items() if isinstance(k, K)})
        return {k.v if isinstance(k, K) else k: x.v if isinstance(x, K) else x for k, x in ob.d.items()}
    return repr(v)


def context(chk, s, ev, args, name, cwd, exports):
    if not ev.name.startswith("exec"):
        return
    lst = arg_list(s, ev)
    first = s.res(ev.args[0])
    chk.ob("lookup", ev.name in ("execvpe", "execvp", "execlpe") and lst and first == lst[0], LOC,
           "in %s, %s(%r) is not the first argument" % (name, ev.name, first), s, "%s runs %r" % (name, first))
    who = lst[0].v if lst and isinstance(lst[0], K) else None
    want = args.get(who) or ([who] if who in ("aa", "bb", "cc") else None)
    if want:
        ok = len(lst) == len(want) and all(
            w is None or (isinstance(w, tuple) and isinstance(a, K) and str(a.v).startswith(w[0])) or a == K(w)
            for a, w in zip(lst, want))
        chk.ob("arguments", ok, LOC, "in %s, the arguments of %s are %r" % (name, who, lst), s)
    got = s.user.get("cwd")
    chk.ob("directory", got == cwd, LOC, "in %s, the directory is %r instead of %r" % (name, got, cwd), s)
    env = content(s, ev.args[2]) if len(ev.args) > 2 else "none"
    if env == ("open", (Ext("os.environ"),), {}):
        env = "os.environ"
    chk.ob("variables", env == exports, LOC, "in %s, the variables are %r" % (name, env), s,
           "%s has variables %r" % (name, env))


ENVS = (
    ("environ.Environment('/w', {'A': '1', 'B': '2'})", "/w", {"A": "1", "B": "2"}),
    ("environ.Environment('/w', {'A': '1'})(exports={'C': '3'})", "/w", {"C": "3"}),
    ("environ.Environment('/w', {'A': '1'})(cwd='/v')", "/v", {"A": "1"}),
    ("environ.Environment('/w', {'A': '1'}, True)(cwd='/v', interactive=False)", "/v", {"A": "1"}),
    ("environ.Environment('/w', {'A': '1'})('/v', {})", "/v", {}),
    ("environ.Environment('/w')", "/w", "os.environ"),
)


def environments(chk):
    """Programs of environments of their own, alone and composed with those of another environment."""
    uses = [("%s(environ.Environment('/w', %r, %r))" % (use, ex, inter), "/w", ex)
            for use in USES for inter in (False, True) for ex in ({"A": "1"}, {"PWD": "/w"})]
    for expr, cwd, exports in ENVS + tuple(uses):
        for shape in ("e.aa", "e.aa | other.bb", "other.bb + e.aa")[:1 if "(environ" in expr else 3]:
            l = Launch(chk, HELPERS + "def f():\n    e = %s\n    other = environ.Environment('/other', {'O': 'o'})\n"
                            "    return (%s).run()\n" % (expr, shape)).init_log()
            n = 0
            name = "%s, e being %s" % (shape, expr)
            for s, v in l.start():
                for ev in execs(s):
                    lst = arg_list(s, ev)
                    mine = bool(lst) and (lst[0] == K("aa") or "other" not in shape)
                    n += mine
                    context(chk, s, ev, {}, name, K(cwd if mine else "/other"), exports if mine else {"O": "o"})
            chk.ob("reached", n > 0, LOC, "in %s, the program is not executed" % name)


def arguments(chk):
    for expr, want in (
            ("env.aa('x', 'y', k='v', a_b=True, no=False)", ["aa", "x", "y", "--k=v", "--a-b"]),
            ("env.aa.sub('x')('y').z", ["aa", "sub", "x", "y", "z"]),
            ("env.aa({'k': 'v'}, 'x', {'l': True})", ["aa", "--k=v", "x", "--l"]),
            ("env.aa('', ' ', '-')", ["aa", "", " ", "-"]),
            ("env.aa(R('*'), 'x')", ["aa", "*", "x"]),
            ("env.aa - env.x", ["aa", "-x"]),
            ("env._(R('aa'), 'x')", ["aa", "x"]),
            ("env.aa(k='', n=0, m=None)", ["aa", "--k=", "--n=0", "--m=None"]),
    ):
        l = Launch(chk, SRC + "def f():\n    return (%s).run()\n" % expr, fork="child").init_log()
        n = 0
        for s, v in l.start():
            for ev in execs(s):
                n += 1
                context(chk, s, ev, {"aa": want}, expr, K("/start"), {"A": "b"})
        chk.ob("reached", n > 0, LOC, "%s is not executed" % expr)


def failures(chk):
    for expr in ("env.aa", "env.aa | Redirect(2, '/err')", "('/in' | env.aa) | '/out'", "env.aa | Redirect(1, 9) | Redirect(2, TMP)",
                 "env.aa | Redirect(5, '/five', 0)", "env.aa(env.bb)", "env.aa | env.bb"):
        l = Launch(chk, SRC + "def f():\n    return (%s).run()\n" % expr, fork="child", limit=16)

        def raises(it, st, name, recv, args):
            if not st.user.get("child") or st.user.get("nfail") or name not in CALLS:
                return ()
            return [("OSError", True), ("Exception", True)]
        l.hooks.raises = raises

        def failed(it, st, v):
            st.user["nfail"] = 1
            o = st.mut(v.out[1])
            if o.cls == "OSError":
                no = T("sym", "errno")
                st.tinfo[no] = "int"
                o.f["errno"] = no
            return v
        l.hooks.failed = failed
        l.init_log()
        l.hooks.fork = "both" if "bb" in expr else "child"
        ok = 0
        for s, v in l.start():
            bad = s.user.get("nfail")
            ex = execs(s)
            if not bad:
                ok += len(ex)
                continue
            why = [x for x in s.all_notes() if x[0] == "fails"][-1]
            at = ":".join(str(why[2]).split(":")[:2])
            chk.ob("refused", not ex, at, "in %s, the program is executed although %s raised %s" % (
                expr, why[1], cls_name(why[3])), s, "%s raises: not executed" % why[1])
        chk.ob("reached", ok > 0, LOC, "%s is not executed when nothing fails" % expr)
