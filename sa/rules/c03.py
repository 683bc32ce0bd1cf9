"""C03: every path of a forked child ends in exec or _exit, and in failure with a non-zero status."""
from .launch import *

RAISED = ("OSError", "Exception", "KeyboardInterrupt")
INJECTED = ("os.", "sys.", "signal.", "asyncio.", "init", "fcntl.", "tempfile.", ".")


def check(chk):
    chk.rule("no-return", "no path of the child leaves the function that forked, by returning or by an exception")
    chk.rule("status", "a child that could not do what was requested exits with a non-zero status")
    chk.rule("reached", "the child is started, and reaches exec (or the end of the subshell) when nothing fails")
    chk.assumptions += ["exec does not return except by raising", "os calls that fail raise OSError with an errno "
                        "between 1 and 255; other exceptions may come from any call"]
    deep = chk.tier == "thorough"
    command(chk, 3 if deep else 2)
    for outcome_ in ("ok", "Exception", "KeyboardInterrupt", "SystemExit", "failed", "failed0", "failedNone",
                     "OSError", "OSError without a number"):
        subshell(chk, outcome_, 0)
    subshell(chk, "ok", 1)
    subshell(chk, "failed", 1)
    if deep:
        subshell(chk, "ok", 2)
        subshell(chk, "failed", 2)


def injector(l, most):
    def raises(it, st, name, recv, args):
        if not st.user.get("child") or st.user.get("nfail", 0) >= most:
            return ()
        if name in ("os._exit", "sys.exit", "os.getcwd", "os.close") or name != "log" and not name.startswith(INJECTED):
            return ()
        if st.user.get("nfail"):
            return ("OSError",)
        return [(c, c == "OSError") for c in RAISED]
    l.hooks.raises = raises

    def failed(it, st, v):
        st.user["nfail"] = st.user.get("nfail", 0) + 1
        # one that cannot be logged may still have been done
        st.user["soft"] = st.user.get("soft", 0) + (st.all_notes()[-1][1] == "log")
        o = st.mut(v.out[1])
        if o.cls == "OSError":
            no = T("sym", "errno")
            st.neq[no] = frozenset([K(0), NONE])
            st.tinfo[no] = "int"
            o.f["errno"] = no
        return v
    l.hooks.failed = failed


def command(chk, fails):
    l = Launch(chk, '''
def f():
    env = environ.Environment(None, {"A": "b"})
    return env.ls("-l").run([Redirect(0, "/in"), Redirect(1, "/out"), Redirect(2, 9)])
''', fork="child", limit=16)
    l.st.user["fds"] = {n: (c, False) for n, c in list(TTY.items()) + [(9, ("user", 9))]}
    injector(l, fails)
    judge(chk, l, l.start(), "pipeline/command.py:Command._run", "execvpe")


def subshell(chk, result, fails):
    l = Launch(chk, '''
class Res(object):
    failed_processes = []
def f(code):
    env = environ.Environment(None, {"A": "b"})
    return builtins.SubShell(env, ["subshell", env.ls]).run([Redirect(0, 0), Redirect(1, 9), Redirect(2, 9)])
def failure(code):
    r = Res()
    r.exit_code = code
    return running.PipelineFailed(r)
''', fork="child", limit=16)
    l.st.user["fds"] = {n: (c, False) for n, c in list(TTY.items()) + [(9, ("user", 9))]}
    ri = l.prog.method("pipeline/base.py", "Pipeline", "run_interactive")

    def inner(it, st, slf, a, k):
        st.user["ran"] = True
        if result == "ok":
            return [(st, T("sym", "pipeline"))]
        if result.startswith("failed"):
            code = {"failed": T("sym", "exit_code"), "failed0": K(0), "failedNone": NONE}[result]
            st.tinfo[code] = "int"
            out = []
            for s, e in it.call(st, FnV(l.mod.funcs["failure"], None), [code], {}, None, l.run.fr):
                s.user["nfail"] = s.user.get("nfail", 0) + 1
                s.mut(e).meta["loc"] = "in the subshell"
                out.append((s, Abrupt(("raise", e))))
            return out
        s, v = it.raise_new(st, result.split()[0], None, None, (), False)
        if result.startswith("OSError"):
            no = NONE
            if result == "OSError":
                no = T("sym", "errno")
                s.neq[no] = frozenset([K(0), NONE])
                s.tinfo[no] = "int"
            s.mut(v.out[1]).f["errno"] = no
        if result == "SystemExit":
            code = T("sym", "user_exit")
            s.mut(v.out[1]).f["code"] = code
            s.tinfo[code] = "int"
            s.user["user_exit"] = True
        else:
            s.user["nfail"] = s.user.get("nfail", 0) + 1
        return [(s, v)]
    l.hooks.pkg[ri] = inner
    try:
        ini = l.prog.func("init.py", "initialize")
        l.hooks.pkg[ini] = lambda it, st, slf, a, k: [
            (st, r) if not isinstance(r, Abrupt) else (st, r) for st, r in it.call_ext(st, "init", None, [], {}, None, l.run.fr)]
    except AnalysisError:
        pass
    injector(l, fails + (1 if result.startswith("failed") or result.split(" ")[0] in RAISED else 0))
    judge(chk, l, l.start(NONE), "pipeline/builtins.py:SubShell._child", "_exit", result)


def judge(chk, l, res, loc, goal, result=""):
    n = ends = 0
    for s, v in res:
        if not s.user.get("child"):
            chk.ob("reached", False, exc_loc(s, v) or loc, "the launch fails before forking: %s" % cls_name(exc_class(s, v)), s)
            continue
        n += 1
        failed = s.user.get("nfail", 0) > 0
        why = [x for x in s.all_notes() if x[0] == "fails"]
        what = "; ".join("%s raises %s" % (x[1], cls_name(x[3])) for x in why) or result or "no failure"
        at = ":".join(str(why[-1][2]).split(":")[:2]) if why else loc
        ended = isinstance(v, Abrupt) and v.out[0] == "stop"
        if isinstance(v, Abrupt) and v.out[0] == "raise":
            how = "an exception (%s)" % cls_name(exc_class(s, v))
        else:
            how = "returning"
        chk.ob("no-return", ended, at, "the child leaves the launching code by %s when %s" % (how, what), s, what)
        if not ended:
            continue
        ev = [e for e in s.trace() if e.kind == "stop"][-1]
        if ev.name == goal and not failed:
            ends += 1
        if ev.name == "_exit" and failed and s.user["nfail"] > s.user.get("soft", 0):
            chk.ob("status", nonzero(s, ev.args[0]), at, "the child exits with status %r when %s" % (ev.args[0], what), s, what)
        if ev.name == "_exit" and not failed and result == "ok":
            chk.ob("status", s.res(ev.args[0]) == K(0), loc, "a subshell whose pipeline succeeded exits with status %r" % (
                ev.args[0],), s, what)
        if ev.name != "_exit" and not failed:
            chk.ob("reached", True, loc, "")
    chk.ob("reached", n > 0, loc, "no child is started (%s)" % result)
    chk.ob("reached", ends > 0 or result not in ("", "ok"), loc, "the child does not reach %s when nothing fails" % goal)


def nonzero(st, v):
    v = st.res(v)
    if isinstance(v, K):
        return isinstance(v.v, int) and v.v & 0xff != 0
    if st.known_type(v) not in ("int", "bool"):
        return False
    return truth_of(st, v) is True
