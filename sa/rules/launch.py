"""Descriptor tables of the shell and of the processes it starts, along every path of a launch."""
import errno
import os

from .common import *

FD_LIMIT = 32
LOGFD = FD_LIMIT - 1
TTY = {0: ("tty", 0), 1: ("tty", 1), 2: ("tty", 2)}
F_GETFD, F_SETFD, F_DUPFD, F_DUPFD_CLOEXEC = 1, 2, 0, 1030

PRELUDE = '''
from pieshell import environ, redir, log, iterio
from pieshell.environ import R
from pieshell.redir import Redirect, Redirects, PIPE, STRING, TMP
from pieshell.pipeline import command, pipe, group, redirect, function, builtins, base, running


class Local(object):
    """threading.local()"""
'''


class LaunchHooks(BaseHooks):
    """The kernel's descriptor tables; fork follows the child, the parent or both."""

    def __init__(self, prog, fork="both", limit=FD_LIMIT):
        BaseHooks.__init__(self)
        self.limit_fd = limit
        self.prog = prog
        self.fork = fork
        self.max_states = 20000
        self.recursion = 12
        self.child_files = {}
        E = self.ext
        for n in ("pipe", "close", "dup", "dup2", "open", "fork", "execvpe", "execve", "execv", "execvp", "_exit",
                  "closerange", "set_inheritable", "chdir", "getcwd", "write", "read", "unlink"):
            E["os." + n] = getattr(self, "os_" + n.strip("_"))
        E["os.pipe2"] = self.os_pipe
        E["os.remove"] = self.os_unlink
        E["fcntl.fcntl"] = self.fcntl
        E["tempfile.mkstemp"] = self.mkstemp
        E["os.sysconf"] = lambda it, st, r, a, k: [(st, K(limit))]
        E["resource.getrlimit"] = lambda it, st, r, a, k: [(st, Tup([K(limit), K(limit)]))]
        E["sys.stdout.fileno"] = lambda it, st, r, a, k: [(st, K(1))]
        E["sys.stderr.fileno"] = lambda it, st, r, a, k: [(st, K(2))]
        E[".fileno"] = lambda it, st, r, a, k: [(st, K(1))] if repr(r) == "sys.stdout" else None
        for n in ("sys.stdout.write", "sys.stderr.write", "sys.stdout.flush", "sys.stderr.flush"):
            E[n] = lambda it, st, r, a, k: [(st, NONE)]
        E["signal.pthread_sigmask"] = self.sigmask
        E[".add_reader"] = self.watch
        E[".add_writer"] = self.watch
        E[".remove_reader"] = self.watch
        E[".remove_writer"] = self.watch
        E["sys.exit"] = self.sys_exit
        E["re.match"] = self.re_match
        for n in ("os.path.exists", "os.path.isdir"):
            E[n] = lambda it, st, r, a, k: [(st, TRUE)]
        self.stub("ps.py", "PstreeProcess")
        self.awaits = self.wait_nothing

    def re_match(self, it, st, recv, args, kwargs):
        a = [st.res(x) for x in args]
        if len(a) == 2 and all(isinstance(x, K) and isinstance(x.v, str) for x in a):
            import re
            if re.match(a[0].v, a[1].v) is None:
                return [(st, NONE)]
            return [(st, st.new("match", "re.Match"))]
        return None

    def sys_exit(self, it, st, recv, args, kwargs):
        s, v = it.raise_new(st, "SystemExit", None, None, tuple(args))
        s.mut(v.out[1]).f["code"] = args[0] if args else NONE
        return [(s, v)]

    def stub(self, rel, cls):
        try:
            ci = self.prog.cls(rel, cls)
        except AnalysisError:
            return
        self.pkg[ci] = lambda it, st, slf, a, k: [(st, T("stub", cls, tuple(a), st.nev))]

    def wait_nothing(self, it, st, v):
        return None

    # -- descriptor table: number -> (content, close-on-exec) ---------------------
    @staticmethod
    def table(st):
        return st.user.get("fds", {})

    def put(self, st, n, content, cloexec):
        d = dict(self.table(st))
        if content is None:
            d.pop(n, None)
        else:
            d[n] = (content, cloexec)
        st.user["fds"] = d

    def alloc(self, st, content, cloexec=True, least=0):
        d = self.table(st)
        n = least
        while n in d:
            n += 1
        if n >= self.limit_fd - 1:
            raise AnalysisError("the scenario needs too many descriptors")
        self.put(st, n, content, cloexec)
        return K(n)

    def serial(self, st):
        st.user["serial"] = st.user.get("serial", 0) + 1
        return st.user["serial"]

    def err(self, it, st, what, *a):
        st.emit(Ev("fd", what, args=[K(x) if not isinstance(x, V) else x for x in a]))
        s, v = it.raise_new(st, "OSError", None, None, (K(errno.EBADF), K(what)))
        s.mut(v.out[1]).f["errno"] = K(errno.EBADF)
        return [(s, v)]

    def num(self, st, v):
        v = st.res(v)
        return v.v if isinstance(v, K) and isinstance(v.v, int) else None

    def os_pipe(self, it, st, recv, args, kwargs):
        n = self.serial(st)
        r = self.alloc(st, ("pipe", n, "r"), True)
        w = self.alloc(st, ("pipe", n, "w"), True)
        return [(st, Tup([r, w]))]

    def os_close(self, it, st, recv, args, kwargs):
        n = self.num(st, args[0])
        d = self.table(st)
        if n is None:
            st.emit(Ev("fd", "unknown", args=args))
            return [(st, NONE)]
        if n not in d:
            return self.err(it, st, "closed-twice", n)
        st.emit(Ev("fd", "close", args=(K(n),), extra=d[n][0]))
        self.put(st, n, None, None)
        return [(st, NONE)]

    def os_closerange(self, it, st, recv, args, kwargs):
        a, b = self.num(st, args[0]), self.num(st, args[1])
        if a is None or b is None:
            return None
        for n in range(a, min(b, self.limit_fd)):
            self.put(st, n, None, None)
        return [(st, NONE)]

    def os_dup(self, it, st, recv, args, kwargs):
        n = self.num(st, args[0])
        d = self.table(st)
        if n is None or n not in d:
            return self.err(it, st, "not-open", args[0])
        return [(st, self.alloc(st, d[n][0], True))]

    def os_dup2(self, it, st, recv, args, kwargs):
        a, b = self.num(st, args[0]), self.num(st, args[1])
        inh = kwargs.get("inheritable", args[2] if len(args) > 2 else TRUE)
        d = self.table(st)
        if a is None or b is None or a not in d or b >= self.limit_fd:
            return self.err(it, st, "not-open", args[0])
        self.put(st, b, d[a][0], truth_of(st, inh) is False)
        return [(st, K(b))]

    def os_open(self, it, st, recv, args, kwargs):
        flag = args[1] if len(args) > 1 else kwargs.get("flags", K(0))
        mode = args[2] if len(args) > 2 else kwargs.get("mode", K(0o777))
        return [(st, self.alloc(st, ("file", st.res(args[0]), st.res(flag), st.res(mode)), True))]

    def mkstemp(self, it, st, recv, args, kwargs):
        n = self.serial(st)
        path = T("sym", "tmpfile%d" % n)
        st.tinfo[path] = "str"
        return [(st, Tup([self.alloc(st, ("tmp", n), True), path]))]

    def fcntl(self, it, st, recv, args, kwargs):
        n, op = self.num(st, args[0]), st.res(args[1])
        op = op.v if isinstance(op, K) else {"fcntl.F_GETFD": F_GETFD, "fcntl.F_SETFD": F_SETFD,
                                             "fcntl.F_DUPFD": F_DUPFD, "fcntl.F_DUPFD_CLOEXEC": F_DUPFD_CLOEXEC
                                             }.get(repr(op))
        d = self.table(st)
        if n is None or n not in d:
            return self.err(it, st, "not-open", args[0])
        if op == F_GETFD:
            return [(st, K(1 if d[n][1] else 0))]
        if op == F_SETFD:
            v = st.res(args[2])
            self.put(st, n, d[n][0], bool(v.v & 1) if isinstance(v, K) else True)
            return [(st, K(0))]
        if op in (F_DUPFD, F_DUPFD_CLOEXEC):
            return [(st, self.alloc(st, d[n][0], op == F_DUPFD_CLOEXEC, self.num(st, args[2]) or 0))]
        return [(st, K(0))]

    def os_set_inheritable(self, it, st, recv, args, kwargs):
        n = self.num(st, args[0])
        d = self.table(st)
        if n is None or n not in d:
            return self.err(it, st, "not-open", args[0])
        self.put(st, n, d[n][0], truth_of(st, args[1]) is False)
        return [(st, NONE)]

    def os_write(self, it, st, recv, args, kwargs):
        return None

    def os_read(self, it, st, recv, args, kwargs):
        return None

    def os_unlink(self, it, st, recv, args, kwargs):
        return None

    # -- processes ------------------------------------------------------------------
    def os_fork(self, it, st, recv, args, kwargs):
        n = st.user.get("forks", 0) + 1
        st.user["forks"] = n
        out = []
        if self.fork in ("both", "child"):
            c = st.fork()
            c.user["child"] = n
            c.emit(Ev("forked", "child", args=(K(n),)))
            out.append((c, K(0)))
        if self.fork in ("both", "parent"):
            st.emit(Ev("forked", "parent", args=(K(n),)))
            out.append((st, K(1000 + n)))
        return out

    def stop(self, st, what, args):
        st.emit(Ev("stop", what, args=args, extra=self.table(st)))
        return [(st, Abrupt(("stop", what)))]

    def os_exit(self, it, st, recv, args, kwargs):
        v = st.res(args[0])
        if not (isinstance(v, K) and isinstance(v.v, int)) and st.known_type(v) not in ("int", "bool", None):
            return [it.raise_new(st, "TypeError")]
        if isinstance(v, K) and not isinstance(v.v, int):
            return [it.raise_new(st, "TypeError")]
        return self.stop(st, "_exit", (v,))

    def os_execvpe(self, it, st, recv, args, kwargs):
        return self.stop(st, "execvpe", args)

    def os_execve(self, it, st, recv, args, kwargs):
        return self.stop(st, "execve", args)

    def os_execv(self, it, st, recv, args, kwargs):
        return self.stop(st, "execv", args)

    def os_execvp(self, it, st, recv, args, kwargs):
        return self.stop(st, "execvp", args)

    def os_chdir(self, it, st, recv, args, kwargs):
        st.user["cwd"] = st.res(args[0])
        return [(st, NONE)]

    def os_getcwd(self, it, st, recv, args, kwargs):
        return [(st, st.user.get("cwd", K("/start")))]

    def sigmask(self, it, st, recv, args, kwargs):
        st.emit(Ev("sigmask", "sigmask", args=[st.res(a) for a in args]))
        return [(st, NONE)]

    def watch(self, it, st, recv, args, kwargs):
        n = self.num(st, args[0])
        d = self.table(st)
        st.emit(Ev("watch", "watch", args=[st.res(args[0])], extra=d.get(n, (None,))[0]))
        return [(st, NONE)]


class Launch(object):
    """Scenarios written as code that uses the package, analysed together with it."""

    def __init__(self, chk, source, fork="both", private=True, name="scenario", limit=FD_LIMIT,
                 hooks=None):
        self.chk = chk
        self.prog = chk.prog
        n = getattr(chk, "nscen", 0)
        chk.nscen = n + 1
        self.mod = self.prog.add_source("%s_%d" % (name, n), PRELUDE + source)
        self.hooks = (hooks or LaunchHooks)(self.prog, fork, limit)
        self.run = Run(chk, self.hooks)
        local = self.mod.classes["Local"]
        self.hooks.globs_[("pieshell.signalio", "manager")] = ModV("pieshell.signalio.manager_signalfd")
        self.hooks.ext["threading.local"] = lambda it, st, r, a, k: [(st, it.alloc(st, local))]
        self.it = self.run.it
        st = State()
        fds = {n: (c, False) for n, c in TTY.items()}
        if private:
            fds[3] = (("private", 3), True)     # e.g. the event loop's, close-on-exec
            fds[6] = (("private", 6), False)    # something the shell inherited itself
            fds[9] = (("user", 9), False)       # a descriptor the user may redirect to by number
        st.user["fds"] = fds
        self.st = st
        self.literal_args()

    def literal_args(self):
        """Argument expansion is decided by C13; here arguments are themselves."""
        try:
            f = self.prog.method("environ.py", "Environment", "_expand_argument")
        except AnalysisError:
            return
        r = self.prog.cls("environ.py", "R")

        def expand(it, st, slf, args, kwargs):
            v = st.res(args[0])
            if isinstance(v, Ref) and st.obj(v).cls is r:
                v = st.obj(v).f.get("str", v)
            return [(st, st.new("list", None, {}, (v,)))]
        self.hooks.pkg[f] = expand

    def init_log(self):
        """The effects of importing log: its descriptor."""
        m = self.prog.module("log.py")
        fr = Frame(0, None, None, m)
        res = self.it.exec_block(m.tree.body, self.st, fr)
        ok = [s for s, o in res if o is NORMAL]
        if not ok:
            raise AnalysisError("importing log does not end normally")
        self.st = ok[0]
        return self

    def start(self, *args, fn="f", coro=False):
        st = self.st.fork()
        res = self.it.call(st, FnV(self.mod.funcs[fn], None), list(args), {}, None, self.run.fr)
        if coro:
            res = self.run.awaited(res)
        self.chk.absorb(self.it, res)
        return res
