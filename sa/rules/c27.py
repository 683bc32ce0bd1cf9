"""C27: the signals the shell blocks in its own process are unblocked in every program it starts."""
import signal

from .shapes import *

TECHNIQUE = ("path-sensitive abstract interpretation with the process's signal mask as abstract state: blocked where "
             "either signal backend blocks, inherited by fork, required to be empty wherever a program is executed")
LOC = "pipeline/command.py:Command._child"
HOW = {"SIG_BLOCK": 0, "SIG_UNBLOCK": 1, "SIG_SETMASK": 2}


def members(st, v):
    v = st.res(v)
    if isinstance(v, Tup):
        items = v.items
    elif isinstance(v, Ref) and st.obj(v).kind in ("list", "set"):
        items = st.obj(v).d
    elif isinstance(v, T) and v.op == "allsignals":
        return frozenset(range(1, 65))
    else:
        return None
    out = set()
    for x in items:
        x = st.res(x)
        if not (isinstance(x, K) and isinstance(x.v, int)):
            return None
        out.add(int(x.v))
    return frozenset(out)


def mask(name):
    def f(it, st, recv, args, kwargs):
        how = st.res(args[0])
        h = how.v if isinstance(how, K) else HOW.get(repr(how).split(".")[-1])
        sigs = members(st, args[1])
        old = st.user.get("mask", frozenset())
        if h is None or sigs is None:
            st.user["mask"] = old | {"unknown"}
        else:
            h = int(h)
            st.user["mask"] = old | sigs if h == 0 else old - sigs if h == 1 else sigs
        st.emit(Ev("sigmask", name, args=[how, args[1]]))
        return [(st, st.new("set", None, None, tuple(K(x) for x in sorted(old, key=str))))]
    return f


SCENARIOS = (
    ("env.aa", "run"), ("env.aa | env.bb", "run"), ("env.aa + env.bb", "run"), ("env.aa(env.bb)", "run"),
    ("gen() | env.aa", "run"), ("env.aa | use", "run"), ("env.aa | Redirect('stdout', STRING)", "run"),
    ("builtins.SubShell(env, ['subshell', env.aa | env.bb])", "run"),
    ("env.aa", "iter"), ("env.aa | env.bb", "interactive"),
)


def check(chk):
    chk.rule("unblocked", "no signal that creating the signal manager, or anything before the launch, blocked is still "
             "blocked when a program is executed")
    chk.rule("reserved", "signals read through a descriptor are blocked in the shell")
    chk.rule("kept", "the shell's own signal mask is unchanged by starting programs")
    chk.rule("reached", "programs are executed in the scenario")
    chk.assumptions += ["a forked child inherits the signal mask and exec keeps it"]
    for backend in ("manager_signalfd", "manager_asyncio"):
        for expr, mode in SCENARIOS:
            run = {"run": "return (%s).run()", "iter": "return (%s).__aiter__()",
                   "interactive": "return (%s).run_interactive()"}[mode] % expr
            l = Launch(chk, SRC + "def f():\n    %s\n" % run)
            h = l.hooks
            h.globs_[("pieshell.signalio", "manager")] = ModV("pieshell.signalio." + backend)
            h.ext["signalfd.sigprocmask"] = mask("sigprocmask")
            h.ext["signal.pthread_sigmask"] = mask("pthread_sigmask")
            h.ext["signal.valid_signals"] = lambda it, st, r, a, k: [(st, T("allsignals"))]
            h.ext["signalfd.signalfd"] = lambda it, st, r, a, k: [(st, h.alloc(st, ("signalfd", 0), True))]
            h.ext[".run_until_complete"] = lambda it, st, r, a, k: it.await_(st, a[0], None, l.run.fr)
            l.init_log()
            rel = "signalio/%s.py" % backend
            made = [s for s, v in l.it.call(l.st, FnV(chk.prog.func(rel, "make_signal_manager")), [], {}, None, l.run.fr)
                    if not isinstance(v, Abrupt)]
            if len(made) != 1:
                raise AnalysisError("making a signal manager has %d outcomes" % len(made))
            l.st = made[0]
            reserved = l.st.user.get("mask")
            chk.ob("reserved", backend != "manager_signalfd" or reserved, rel + ":SignalManager.__init__",
                   "the signals read through a descriptor are not blocked", l.st)
            n = 0
            who = "%s (%s)" % (expr, backend)
            for s, v in l.start():
                ex = [e for e in s.trace() if e.kind == "stop" and e.name.startswith("exec")]
                for e in ex:
                    n += 1
                    left = s.user.get("mask", frozenset())
                    chk.ob("unblocked", not left, LOC, "in %s, a program starts with %s blocked" % (
                        who, ", ".join(map(name, sorted(left, key=str)))), s,
                        "%s: %d mask changes, none blocked at exec" % (
                            who, len([e for e in s.trace() if e.kind == "sigmask"])))
                if not s.user.get("child"):
                    chk.ob("kept", s.user.get("mask") == reserved, LOC,
                           "in %s, the shell's signal mask is changed by the launch" % who, s)
            chk.ob("reached", n > 0, LOC, "in %s, no program is executed" % who)


def name(n):
    try:
        return signal.Signals(n).name
    except ValueError:
        return str(n)
