"""Scenarios for child status changes and signals, over both signal backends."""
import errno
import os
import signal

from .common import *

BACKENDS = ("manager_signalfd", "manager_asyncio")
SIGCHLD, SIGTSTP = int(signal.SIGCHLD), int(signal.SIGTSTP)

# The ways a wait status can be, and what the W* macros say of each (linux encoding).
KINDS = {
    # kind:        exited signaled stopped continued core   terminal failed
    "exit0":      (True, False, False, False, False, True, False),
    "exitN":      (True, False, False, False, False, True, True),
    "killed":     (False, True, False, False, False, True, True),
    "dumped":     (False, True, False, False, True, True, True),
    "stopped":    (False, False, True, False, False, False, None),
    # a continued child's status is 0xffff: WCOREDUMP is true of it
    "continued":  (False, False, False, True, True, False, None),
}
MACROS = {"os.WIFEXITED": 0, "os.WIFSIGNALED": 1, "os.WIFSTOPPED": 2, "os.WIFCONTINUED": 3, "os.WCOREDUMP": 4}
NAMES = ["ssi_signo", "ssi_errno", "ssi_code", "ssi_pid", "ssi_uid", "ssi_fd", "ssi_tid", "ssi_band", "ssi_overrun",
         "ssi_trapno", "ssi_status", "ssi_int", "ssi_ptr", "ssi_utime", "ssi_stime", "ssi_addr"]


def status(kind, i=0):
    return T("status", kind, K(i))


def status_value(kind, i=0):
    """The number that comes with the status: exit code or signal."""
    return T("sym", "%s_value_%d" % (kind, i))


class SignalHooks(BaseHooks):
    def __init__(self, prog, backend, wait_end="empty"):
        BaseHooks.__init__(self)
        self.wait_end = wait_end
        self.prog = prog
        self.backend = backend
        self.globs_[("pieshell.signalio", "manager")] = ModV("pieshell.signalio." + backend)
        E = self.ext
        for m, i in MACROS.items():
            E[m] = self.macro(i)
        for m in ("os.WEXITSTATUS", "os.WTERMSIG", "os.WSTOPSIG"):
            E[m] = self.value(m)
        E["os.waitstatus_to_exitcode"] = self.exitcode
        E["os.waitpid"] = self.waitpid
        E["os.wait3"] = lambda it, st, r, a, k: self.waitpid(it, st, r, [K(-1)] + list(a), k, 3)
        E["os.wait4"] = lambda it, st, r, a, k: self.waitpid(it, st, r, a, k, 4)
        E["os.wait"] = lambda it, st, r, a, k: self.waitpid(it, st, r, [K(-1), K(0)], k)
        E["signalfd.read_siginfo"] = self.read_siginfo
        E["dir"] = self.dir_
        E["asyncio.get_event_loop"] = lambda it, st, r, a, k: [(st, LOOP)]

    def macro(self, i):
        def f(it, st, recv, args, kwargs):
            v = args[0]
            if isinstance(v, T) and v.op == "status":
                return [(st, K(KINDS[v.args[0]][i]))]
            return None
        return f

    def value(self, m):
        def f(it, st, recv, args, kwargs):
            v = args[0]
            if not (isinstance(v, T) and v.op == "status"):
                return None
            kind, i = v.args[0], v.args[1].v
            ok = {"os.WEXITSTATUS": kind in ("exit0", "exitN"), "os.WTERMSIG": kind in ("killed", "dumped"),
                  "os.WSTOPSIG": kind == "stopped"}[m]
            if kind == "exit0" and ok:
                return [(st, K(0))]
            if ok:
                return [(st, status_value(kind, i))]
            # what the macros give for other statuses
            junk = {("os.WEXITSTATUS", "killed"): 0, ("os.WEXITSTATUS", "dumped"): 0,
                    ("os.WTERMSIG", "exit0"): 0, ("os.WTERMSIG", "exitN"): 0,
                    ("os.WSTOPSIG", "killed"): 0, ("os.WSTOPSIG", "dumped"): 0, ("os.WSTOPSIG", "exit0"): 0}
            if (m, kind) in junk:
                return [(st, K(junk[(m, kind)]))]
            return [(st, T("sym", "%s(%s)" % (m, kind)))]
        return f

    def exitcode(self, it, st, recv, args, kwargs):
        v = args[0]
        if not (isinstance(v, T) and v.op == "status"):
            return None
        kind, i = v.args[0], v.args[1].v
        if kind == "exit0":
            return [(st, K(0))]
        if kind == "exitN":
            return [(st, status_value(kind, i))]
        if kind in ("killed", "dumped"):
            return [(st, T("un", "USub", status_value(kind, i)))]
        return [it.raise_new(st, "ValueError")]

    def waitpid(self, it, st, recv, args, kwargs, shape=2):
        """The kernel: changes of children not yet collected."""
        queue = st.user.get("wait", ())
        pid = st.res(args[0])
        flags = st.res(args[1]) if len(args) > 1 else K(0)
        fl = flags.v if isinstance(flags, K) and isinstance(flags.v, int) else None
        st.emit(Ev("waitpid", "waitpid", args=(pid, flags)))
        if fl is None:
            return None
        ready = []
        for n, (p, s) in enumerate(queue):
            kind = s.args[0]
            if kind == "stopped" and not fl & os.WUNTRACED:
                continue
            if kind == "continued" and not fl & os.WCONTINUED:
                continue
            if isinstance(pid, K) and pid.v > 0 and pid != p:
                continue
            ready.append(n)
        pad = lambda x: Tup(list(x) + ([T("sym", "rusage")] if shape > 2 else []))
        if ready:
            n = ready[0]
            p, s = queue[n]
            st.user["wait"] = queue[:n] + queue[n + 1:]
            st.emit(Ev("reaped", "waitpid", args=(p, s)))
            return [(st, pad((p, s)))]
        if self.wait_end == "echild":
            return [it.raise_new(st, "ChildProcessError")]
        if not fl & os.WNOHANG:
            st.emit(Ev("blocks", "waitpid", args=(pid, flags)))
            return [(st, Abrupt(("cut",)))]
        return [(st, pad((K(0), K(0))))]

    def read_siginfo(self, it, st, recv, args, kwargs):
        q = st.user.get("sigs", ())
        if q:
            st.user["sigs"] = q[1:]
            st.emit(Ev("sigread", "read_siginfo", args=(q[0],)))
            info = T("siginfo", q[0], K(len(q)))
            st.tinfo[info] = "siginfo"
            return [(st, info)]
        s, a = it.raise_new(st, "OSError")
        s.mut(a.out[1]).f["errno"] = K(errno.EAGAIN)
        return [(s, a)]

    def dir_(self, it, st, recv, args, kwargs):
        if args and isinstance(args[0], T) and args[0].op == "siginfo":
            return [(st, st.new("list", None, None, tuple(K(n) for n in NAMES)))]
        return None

    def attr(self, it, st, v, name):
        if isinstance(v, T) and v.op == "siginfo" and name in NAMES:
            if name == "ssi_signo":
                return v.args[0]
            if v.args[0] == K(SIGCHLD) and name in ("ssi_pid", "ssi_code", "ssi_status"):
                # describes only one of the children that changed
                return T("sym", "squashed_" + name)
            if name in ("ssi_pid", "ssi_code", "ssi_status"):
                return K(55) if name == "ssi_pid" else K(0)     # sent by somebody else
            return K(0)
        return BaseHooks.attr(self, it, st, v, name)


class SignalWorld(Run):
    """A signal manager of one backend with handlers registered."""

    def __init__(self, chk, backend, wait_end="empty"):
        prog = chk.prog
        Run.__init__(self, chk, SignalHooks(prog, backend, wait_end))
        self.hooks.while_bound = 8
        self.backend = backend
        self.mod = prog.module("signalio/%s.py" % backend)
        self.base = prog.cls("signalio/__init__.py", "SignalHandler")
        self.child = prog.cls("signalio/__init__.py", "ProcessSignalHandler")
        # every delivery is recorded, then carried out
        for c in [self.base] + prog.subclasses(self.base):
            if "handle_event" in c.methods:
                self.hooks.pkg[c.methods["handle_event"]] = self.deliver

    def deliver(self, it, st, slf, args, kwargs):
        ev = args[0] if args else kwargs.get("event")
        d = {}
        if isinstance(ev, Ref) and isinstance(st.obj(ev).d, dict):
            d = dict(st.obj(ev).d)
        st.emit(Ev("deliver", "handle_event", recv=slf, args=(ev,), extra=d))
        return None

    def start(self, st=None):
        st = st or State()
        it = self.it
        res = [(st, NONE)]
        init = self.prog.func("signalio/%s.py" % self.backend, "make_signal_manager") \
            if "make_signal_manager" in self.mod.bind else None
        if init is not None:
            res = self.call(res, FnV(init))
        get = self.prog.func("signalio/%s.py" % self.backend, "get_signal_manager")
        res = self.call(res, FnV(get))
        return res

    def handler(self, res, flt, name):
        """Register a generic handler for a filter; kept under st.user[name]."""
        def f(s, _):
            d = s.new("dict", None, None, {K(k): K(v) for k, v in flt.items()})
            return self.it.call(s, ClsV(self.base), [d], {}, None, self.fr)
        return self.keep(self.it.bind(res, f), name)

    def process(self, res, pid, name):
        return self.keep(self.it.bind(res, lambda s, _: self.it.call(s, ClsV(self.child), [K(pid)], {}, None, self.fr)),
                         name)

    def keep(self, res, name):
        def g(s, v):
            s.user[name] = v
            return [(s, v)]
        return self.it.bind(res, g)

    def wake(self, res, changes=(), signals=(SIGCHLD,)):
        """The event loop wakes up: children changed state, signals are pending."""
        def f(s, _):
            s.user["wait"] = s.user.get("wait", ()) + tuple((K(p), st_) for p, st_ in changes)
            out = [(s, NONE)]
            if self.backend == "manager_signalfd":
                s.user["sigs"] = s.user.get("sigs", ()) + tuple(K(x) for x in signals)
                for cb in self.readers(s):
                    out = self.it.bind(out, lambda s2, _: self.it.call(s2, cb[0], list(cb[1]), {}, None, self.fr))
            else:
                for signo in signals:
                    for cb in self.signal_cbs(s, signo):
                        out = self.it.bind(out, lambda s2, _: self.it.call(s2, cb[0], list(cb[1]), {}, None, self.fr))
            return out
        return self.it.bind(res, f)

    def readers(self, st):
        return [(e.args[1], e.args[2:]) for e in st.trace() if e.name == ".add_reader"]

    def signal_cbs(self, st, signo):
        return [(e.args[1], e.args[2:]) for e in st.trace()
                if e.name == ".add_signal_handler" and st.res(e.args[0]) == K(signo)]

    def manager_loc(self):
        return "signalio/%s.py:SignalManager.handle_event" % self.backend
