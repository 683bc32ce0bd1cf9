"""C01: termination classification, from the wait status to is_running / is_failed / exit_code."""
import itertools

from .common import *
from .signals import *


def check(chk):
    chk.rule("running-until-terminated", "before, and after any sequence of stops and continues, is_running is true")
    chk.rule("terminated", "after a terminal status is_running is false")
    chk.rule("outcome", "after a terminal status is_failed is true exactly for non-zero exits and deaths by signal, "
                        "and the exit code is the exit status")
    chk.rule("no-error", "handling a status change raises nothing")
    chk.assumptions += ["the W* macros classify wait statuses as on Linux (table in sa/rules/signals.py)",
                        "signal numbers and non-zero exit statuses are non-zero"]
    prog = chk.prog
    depth = 3 if chk.tier == "thorough" else 2
    pre = ("stopped", "continued")
    term = [k for k in KINDS if KINDS[k][5]]
    for backend in BACKENDS:
        for n in range(depth + 1):
            for seq in itertools.product(pre, repeat=n):
                for kind in term + [None]:
                    if n == depth and kind is None:
                        continue
                    for batch in ((False, True) if n else (False,)):
                        scenario(chk, backend, seq, kind, batch)


def scenario(chk, backend, seq, kind, batch):
    w = SignalWorld(chk, backend)
    prog = chk.prog
    it = w.it
    rp = prog.cls("pipeline/running.py", "RunningProcess")
    ps = prog.cls("ps.py", "PstreeProcess")
    w.hooks.pkg[ps] = lambda it_, st, slf, a, k: [(st, sym("details"))]
    st = State()
    for i in range(4):
        for k in KINDS:
            v = status_value(k, i)
            st.neq[v] = frozenset([K(0), NONE])
            st.tinfo[v] = "int"
    cmd = sym("cmd")
    res = w.start(st)
    res = w.keep(it.bind(res, lambda s, _: it.call(s, ClsV(rp), [cmd, K(101)], {}, None, w.fr)), "proc")
    changes = [(101, status(k, i)) for i, k in enumerate(seq)]
    if kind:
        changes.append((101, status(kind, len(seq))))
    label = "%s, child %s" % (backend, " then ".join(list(seq) + ([kind] if kind else ["(nothing yet)"])))
    loc = "signalio/signalutils.py:get_sigchlds"
    hloc = "signalio/__init__.py:ProcessSignalHandler.handle_event"
    if batch:
        res = w.wake(res, changes)
    else:
        for c in changes:
            res = w.wake(res, [c])
    res = w.done(res)
    chk.ob("no-error", bool(res), loc, "no path handles: " + label)
    for s, v in res:
        if isinstance(v, Abrupt):
            chk.ob("no-error", False, exc_loc(s, v) or loc,
                   "handling a status change ends in %s (%s)" % (cls_name(exc_class(s, v)) or v.out[0], label), s)
            continue
        proc = s.user["proc"]
        for s1, r in w.attr([(s.fork(), NONE)], proc, "is_running"):
            t = None if isinstance(r, Abrupt) else truth_of(s1, r)
            if kind is None:
                chk.ob("running-until-terminated", t is True, hloc,
                       "a process that has not terminated is reported as not running (%s)" % label, s1, label)
            else:
                chk.ob("terminated", t is False, hloc,
                       "a terminated process is still reported as running (%s)" % label, s1, label)
        if kind is None:
            continue
        failed = KINDS[kind][6]
        for s1, r in w.attr([(s.fork(), NONE)], proc, "is_failed"):
            t = None if isinstance(r, Abrupt) else truth_of(s1, r)
            chk.ob("outcome", t is failed, "pipeline/running.py:RunningProcess.is_failed",
                   "is_failed is %s for a process that %s (%s)" % (
                       t, {"exit0": "exited with 0", "exitN": "exited with another status",
                           "killed": "was killed", "dumped": "was killed and dumped core"}[kind], label), s1, label)
        for s1, r in w.attr([(s.fork(), NONE)], proc, "exit_code"):
            if kind in ("exit0", "exitN"):
                want = K(0) if kind == "exit0" else status_value(kind, len(seq))
                chk.ob("outcome", not isinstance(r, Abrupt) and s1.res(r) == want,
                       "pipeline/running.py:RunningProcess.exit_code",
                       "the exit code reported is not the exit status (%s)" % label, s1)
            else:
                chk.ob("outcome", not isinstance(r, Abrupt) and truth_of(s1, r) is True,
                       "pipeline/running.py:RunningProcess.exit_code",
                       "the exit code of a killed process is not non-zero (%s)" % label, s1)
