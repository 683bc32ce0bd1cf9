"""C02: no status change or signal is lost or misdelivered, in both backends."""
import itertools

from .common import *
from .signals import *


def check(chk):
    chk.rule("collected", "on every path of a wake-up for SIGCHLD every child that changed state is waited for")
    chk.rule("non-blocking", "waiting for children never blocks")
    chk.rule("delivered", "each change is delivered exactly once to the handler of that process and to the handlers "
                          "of SIGCHLD, and to no other")
    chk.rule("signal", "each other signal that was read is delivered exactly once, with its own number, to its "
                       "handlers only")
    chk.rule("no-error", "a wake-up ends normally, also when handlers unregister themselves and when no child is left")
    chk.rule("listening", "both signals are listened for, and blocked first where the backend reads them from a file")
    chk.rule("no-mutation", "the handler table is not changed while it is being iterated over directly")
    chk.assumptions += ["waitpid(-1, WNOHANG...) returns one changed child per call, then (0, 0) or ECHILD; one "
                        "SIGCHLD may stand for any number of changes"]
    n = 4 if chk.tier == "thorough" else 3
    for backend in BACKENDS:
        listening(chk, backend)
        for end in ("empty", "echild"):
            for k in range(0, n + 1):
                changes = []
                for i in range(k):
                    changes.append((101 + i, ("exit0", "killed", "exitN", "dumped")[i % 4]))
                children(chk, backend, end, changes)
            children(chk, backend, end, [(101, "stopped"), (101, "continued"), (101, "exit0"), (102, "stopped")])
            children(chk, backend, end, [(102, "exitN"), (101, "continued"), (103, "killed")])
            # a burst, and a child nobody handles
            children(chk, backend, end, [(990 - i, "exit0") for i in range(40)] + [(101, "exit0")])
            children(chk, backend, end, [(999, "exit0"), (101, "exit0")])
        signals(chk, backend, (SIGTSTP,))
        signals(chk, backend, (SIGTSTP, SIGCHLD))
        signals(chk, backend, (SIGCHLD, SIGTSTP))
        removal(chk, backend)
        iterator(chk, backend)


def world(chk, backend, end="empty"):
    w = SignalWorld(chk, backend, end)
    w.hooks.while_bound = 48
    st = State()
    for i in range(6):
        for k in KINDS:
            st.neq[status_value(k, i)] = frozenset([K(0), NONE])
            st.tinfo[status_value(k, i)] = "int"
    res = w.start(st)
    res = w.handler(res, {"ssi_signo": SIGCHLD}, "chld")
    for p in (101, 102, 103, 104):
        res = w.process(res, p, "p%d" % p)
    res = w.handler(res, {"ssi_signo": SIGTSTP}, "tstp")
    return w, res


def deliveries(st, since):
    return [e for e in st.trace() if e.kind == "deliver" and e.seq >= since]


def children(chk, backend, end, changes):
    w, res = world(chk, backend, end)
    starts = {}
    res = [(mark(s), v) for s, v in res]
    res = w.wake(res, [(p, status(k, i)) for i, (p, k) in enumerate(changes)])
    res = w.done(res)
    label = "%s, %s, then %s" % (backend, ", ".join("%d %s" % c for c in changes) or "no child",
                                 "no child left" if end == "echild" else "children left")
    loc = w.manager_loc()
    chk.ob("no-error", bool(res), loc, "no path: " + label)
    for s, v in res:
        tr = s.trace()
        for e in tr:
            if e.kind == "blocks":
                chk.ob("non-blocking", False, "signalio/signalutils.py:get_sigchlds",
                       "waits for a child to change state (%s)" % label, s)
        if isinstance(v, Abrupt):
            if v.out[0] != "cut":
                chk.ob("no-error", False, exc_loc(s, v) or loc, "a wake-up ends in %s (%s)" % (
                    cls_name(exc_class(s, v)), label), s)
            elif not any(e.kind == "blocks" for e in tr):
                chk.ob("collected", False, loc, "waiting for children does not end (%s)" % label, s)
            continue
        chk.ob("no-error", True, loc, "")
        chk.ob("non-blocking", True, loc, "")
        left = s.user.get("wait", ())
        chk.ob("collected", not left, loc, "%d of %d child status changes are not collected (%s)" % (
            len(left), len(changes), label), s, label)
        ds = deliveries(s, s.user["mark"])
        want = {}
        for i, (p, k) in enumerate(changes):
            want.setdefault("chld", []).append(p)
            if "p%d" % p in s.user:
                want.setdefault("p%d" % p, []).append(p)
        got = {}
        names = {v2: n for n, v2 in s.user.items() if isinstance(v2, Ref)}
        for d in ds:
            pid = d.extra.get(K("ssi_pid"))
            got.setdefault(names.get(d.recv, "?"), []).append(pid.v if isinstance(pid, K) else repr(pid))
        for n in sorted(set(want) | set(got)):
            chk.ob("delivered", want.get(n, []) == got.get(n, []), loc,
                   "handler %s is given the changes of children %s instead of %s (%s)" % (
                       n, got.get(n, []), want.get(n, []), label), s, label)
        for e in tr:
            if e.extra == "live":
                chk.ob("no-mutation", False, e.loc, "a container is changed while it is being iterated over", s)
        chk.ob("no-mutation", True, loc, "")


def mark(s):
    s.user["mark"] = s.nev
    return s


def signals(chk, backend, sigs):
    w, res = world(chk, backend)
    res = [(mark(s), v) for s, v in res]
    changes = [(101, status("exit0", 0))] if SIGCHLD in sigs else []
    res = w.wake(res, changes, sigs)
    # readiness is level triggered: what was not read yet is reported again
    for _ in sigs:
        res = w.it.bind(res, lambda s, v: w.wake([(s, v)], (), ()) if s.user.get("sigs") else [(s, v)])
    res = w.done(res)
    label = "%s, signals %s" % (backend, sigs)
    loc = w.manager_loc()
    chk.ob("no-error", bool(res), loc, "no path: " + label)
    for s, v in res:
        if isinstance(v, Abrupt):
            chk.ob("no-error", False, exc_loc(s, v) or loc, "a wake-up ends in %s (%s)" % (
                cls_name(exc_class(s, v)) or v.out[0], label), s)
            continue
        names = {v2: n for n, v2 in s.user.items() if isinstance(v2, Ref)}
        got = {}
        for d in deliveries(s, s.user["mark"]):
            no = d.extra.get(K("ssi_signo"))
            got.setdefault(names.get(d.recv, "?"), []).append(no.v if isinstance(no, K) else repr(no))
        want = {"tstp": [SIGTSTP]}
        if SIGCHLD in sigs:
            want["chld"] = [SIGCHLD]
            want["p101"] = [SIGCHLD]
        for n in sorted(set(want) | set(got)):
            chk.ob("signal", want.get(n, []) == got.get(n, []), loc,
                   "handler %s is given the signals %s instead of %s (%s)" % (n, got.get(n, []), want.get(n, []), label),
                   s, label)


def removal(chk, backend):
    """A handler that is destroyed gets nothing any more; the others still do."""
    w, res = world(chk, backend)
    res = w.it.bind(res, lambda s, v: w.method([(s, v)], s.user["p102"], "destroy"))
    res = [(mark(s), v) for s, v in res]
    res = w.wake(res, [(102, status("exit0", 0)), (103, status("exit0", 1))])
    res = w.done(res)
    loc = w.manager_loc()
    chk.ob("no-error", bool(res), loc, "no path for an unregistered handler")
    for s, v in res:
        if isinstance(v, Abrupt):
            chk.ob("no-error", False, exc_loc(s, v) or loc, "delivery after unregistering ends in %s" % (
                cls_name(exc_class(s, v)) or v.out[0]), s)
            continue
        names = {v2: n for n, v2 in s.user.items() if isinstance(v2, Ref)}
        got = sorted(names.get(d.recv, "?") for d in deliveries(s, s.user["mark"]))
        chk.ob("delivered", got == ["chld", "chld", "p103"], loc,
               "after unregistering the handler of 102, its and 103's changes go to %s (%s)" % (got, backend), s)


def listening(chk, backend):
    w = SignalWorld(chk, backend)
    res = w.done(w.start())
    loc = "signalio/%s.py:SignalManager.__init__" % backend
    for s, v in res:
        tr = s.trace()
        if isinstance(v, Abrupt):
            chk.ob("listening", False, loc, "the signal manager cannot be created", s)
            continue
        if backend == "manager_asyncio":
            got = {s.res(e.args[0]) for e in tr if e.name == ".add_signal_handler"}
            for sig in (SIGCHLD, SIGTSTP):
                chk.ob("listening", K(sig) in got, loc, "signal %d is not listened for" % sig, s)
            continue
        masks = {"fd": set(), "block": set()}
        for e in tr:
            if e.name == "signalfd.signalfd" and len(e.args) > 1:
                masks["fd"] |= set(w.it.known_seq(s, e.args[1]) or ())
            if e.name in ("signalfd.sigprocmask", "signal.pthread_sigmask") and e.args and \
                    (repr(e.args[0]).endswith("SIG_BLOCK") or s.res(e.args[0]) == K(0)):
                masks["block"] |= set(w.it.known_seq(s, e.args[1]) or ())
        for sig in (SIGCHLD, SIGTSTP):
            for m, what in (("fd", "read from the signal descriptor"), ("block", "blocked")):
                chk.ob("listening", any(s.res(x) == K(sig) or repr(x).endswith(
                    "SIGCHLD" if sig == SIGCHLD else "SIGTSTP") for x in masks[m]), loc,
                    "signal %d is not %s" % (sig, what), s)
        chk.ob("listening", any(e.name == ".add_reader" for e in tr), loc, "the signal descriptor is not watched", s)


def iterator(chk, backend):
    """Signals read through the iterator: in order, also when several come before its reader resumes."""
    w = SignalWorld(chk, backend)
    ci = chk.prog.cls("signalio/__init__.py", "SignalIteratorHandler")
    loc = "signalio/__init__.py:SignalIteratorHandler.handle_event"
    for n in (1, 2, 3):
        st = State()
        got = []

        def awaits(it, s, v):
            # the reader waits; meanwhile n signals arrive
            if not (isinstance(v, Ref) and s.obj(v).kind == "future") or s.user.get("fed"):
                return None
            s.user["fed"] = True
            res = [(s, NONE)]
            for i in range(n):
                res = it.bind(res, lambda s2, _: w.method([(s2, NONE)], s2.user["h"], "handle_event", sym("ev%d" % i)))
            return [(s2, r if isinstance(r, Abrupt) else NONE) for s2, r in res]
        w.hooks.awaits = awaits
        res = w.start(st)

        def make(s, _):
            d = s.new("dict", None, None, {K("ssi_signo"): K(SIGTSTP)})
            return w.it.call(s, ClsV(ci), [d], {}, None, w.fr)
        res = w.keep(w.it.bind(res, make), "h")
        for i in range(n):
            res = w.it.bind(res, lambda s, _: w.awaited(w.method([(s, NONE)], s.user["h"], "__anext__")))
            res = w.it.bind(res, lambda s, v: [(note_got(s, v), v)])
        for s, v in w.done(res):
            if isinstance(v, Abrupt):
                chk.ob("no-error", False, exc_loc(s, v) or loc, "%d signals arriving before the reader resumes end in %s" % (
                    n, cls_name(exc_class(s, v)) or v.out[0]), s)
            else:
                chk.ob("signal", s.user.get("got") == tuple(sym("ev%d" % i) for i in range(n)), loc,
                       "the iterator yields %r for %d signals" % (s.user.get("got"), n), s)


def note_got(s, v):
    s.user["got"] = s.user.get("got", ()) + (v,)
    return s
