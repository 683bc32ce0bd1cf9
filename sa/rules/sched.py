"""The event loop as abstract environment: tasks, child status changes, readiness and signals in every order.

A coroutine that awaits an unfinished future stays suspended while other events are run from inside the await; it
resumes when its future is done. Suspended coroutines therefore resume innermost first; an order in which an outer one
could go on while the inner one cannot is abandoned here, because it is explored with the two nested the other way."""
from .launch import *
from . import signals as sg

SRC = '''
import world
class Src(object):
    def __iter__(self):
        return self
    def __next__(self):
        return world.next_item(self)
class ASrc(object):
    def __aiter__(self):
        return self
    async def __anext__(self):
        return await world.later(self)
def use(inp):
    return Src()
def gen():
    return Src()
def fail(inp):
    raise ValueError("failing function")
env = environ.Environment("/w", {"A": "b"})
'''


EFFECTS = ("read", "write", "setattr", "setitem", "delitem", "mutate", "resolve", "task", "setglobal", "fd", "watch",
           "kill", "looperror")


class SchedHooks(LaunchHooks):
    def __init__(self, prog, fork="parent", limit=FD_LIMIT, backend="manager_asyncio"):
        LaunchHooks.__init__(self, prog, fork, limit)
        self.sig = sg.SignalHooks(prog, backend)
        self.backend = backend
        for n, f in self.sig.ext.items():
            if n not in self.ext or n in sg.MACROS or "wait" in n:
                self.ext.setdefault(n, f)
        E = self.ext
        E["dir"] = self.sig.dir_
        E["signalfd.signalfd"] = self.signalfd
        E["signalfd.read_siginfo"] = self.read_siginfo
        E["signalfd.sigprocmask"] = lambda it, st, r, a, k: [(st, NONE)]
        E[".run_until_complete"] = lambda it, st, r, a, k: it.await_(st, a[0], None, it.main_fr)
        E[".create_task"] = E["asyncio.create_task"] = E["asyncio.ensure_future"] = self.create_task
        E[".call_soon"] = self.call_soon
        E["os.kill"] = self.os_kill
        E["select.poll"] = lambda it, st, r, a, k: [(st, T("sym", "poller"))]
        E[".poll"] = self.poll
        E["select.select"] = self.select
        E["time.sleep"] = self.sleep
        E["os.set_blocking"] = self.set_blocking
        E[".register"] = self.poll_register
        E["slugify.slugify"] = self.slugify
        E["world.next_item"] = self.next_item
        E["world.later"] = self.later
        E["world.pause"] = lambda it, st, r, a, k: self.later(it, st, r, [NONE], k)
        self.lag = False
        self.tasks_first = "fifo"      # or "lifo", or "late": those of the launch in any order, any time
                                       # or "free": any, any time
        self.exits_last = False        # programs exit when nothing else can happen
        self.partial = False           # os.write may also write less than it is given
        self.unready = False           # a poll may also find nothing ready
        self.max_ready = 6             # how often each kind of readiness is noticed
        self.items = ("x",)            # what a Src yields: text, None, or an exception class name
        self.chunks = (b"a\n",)        # what a watched pipe gives before end of file
        self.enabled_more = None
        self.thing = (None, None)      # an item class and the function that makes the item
        self.max_states = 60000
        self.loop_bound = self.while_bound = 6

    # -- externals ------------------------------------------------------------------
    def attr(self, it, st, v, name):
        return self.sig.attr(it, st, v, name)

    def signalfd(self, it, st, recv, args, kwargs):
        flags = [st.res(a) for a in list(args[2:]) + list(kwargs.values())]
        st.user["sfdnonblock"] = any(isinstance(x, Ext) and x.name.endswith("SFD_NONBLOCK")
                                     for f in flags for x in [f] + list(subterms(f)))
        return [(st, self.alloc(st, ("signalfd", 0), True))]

    def read_siginfo(self, it, st, recv, args, kwargs):
        if not st.user.get("sigs", ()) and not st.user.get("sfdnonblock") and not st.user.get("nonblocking"):
            st.emit(Ev("blocks", "read_siginfo"))
        return self.sig.read_siginfo(it, st, recv, args, kwargs)

    def create_task(self, it, st, recv, args, kwargs):
        if not args or not isinstance(args[0], Ref):
            return None
        if st.obj(args[0]).kind == "future":
            return [(st, args[0])]
        n = self.serial(st)
        st.user["tasks"] = st.user.get("tasks", ()) + ((n, args[0]),)
        st.emit(Ev("task", "create_task", args=(args[0],)))
        t = st.new("future", "asyncio.Task", {}, None, {"done": FALSE})
        st.user["tasks"] = st.user["tasks"][:-1] + ((n, args[0], t),)
        return [(st, t)]

    def slugify(self, it, st, recv, args, kwargs):
        v = st.res(args[0])
        if isinstance(v, K) and isinstance(v.v, str):
            import re
            return [(st, K(re.sub("[^a-z0-9]+", "_", v.v.lower()).strip("_")))]
        return None

    def call_soon(self, it, st, recv, args, kwargs):
        n = self.serial(st)
        st.user["tasks"] = st.user.get("tasks", ()) + ((n, tuple(args)),)
        return [(st, T("handle", K(n)))]

    def os_kill(self, it, st, recv, args, kwargs):
        pid, sig = st.res(args[0]), st.res(args[1])
        st.emit(Ev("kill", "kill", args=(pid, sig)))
        if isinstance(pid, K) and pid.v in st.user.get("reaped", ()):
            s, v = it.raise_new(st, "ProcessLookupError")
            return [(s, v)]
        return [(st, NONE)]

    def poll(self, it, st, recv, args, kwargs):
        if recv != T("sym", "poller"):
            return None
        if not args or st.res(args[0]) != K(0):
            st.emit(Ev("blocks", "poll"))
        out = []
        if self.unready:
            s = st.fork()
            out.append((s, s.new("list", None, None, ())))
        st.user["ready"] = st.user.get("ready", ()) + st.user.get("polled", ())
        return out + [(st, st.new("list", None, None, (sym("ready"),)))]

    def poll_register(self, it, st, recv, args, kwargs):
        if recv != T("sym", "poller"):
            return None
        st.emit(Ev("polling", "poll", args=(K(self.num(st, args[0])),)))
        st.user["polled"] = st.user.get("polled", ()) + (self.num(st, args[0]),)
        return [(st, NONE)]

    def select(self, it, st, recv, args, kwargs):
        if len(args) < 4 or st.res(args[3]) != K(0):
            st.emit(Ev("blocks", "select"))
        fds = []
        for a in args[:3]:
            fds += [self.num(st, x) for x in it.known_seq(st, a) or ()]
        for fd in fds:
            st.emit(Ev("polling", "select", args=(K(fd),)))
        out = []
        if self.unready:
            s = st.fork()
            out.append((s, Tup([s.new("list", None, None, ()) for _ in range(3)])))
        st.user["ready"] = st.user.get("ready", ()) + tuple(fds)
        return out + [(st, Tup([st.new("list", None, None, tuple(it.known_seq(st, a) or ())) for a in args[:3]]))]

    def sleep(self, it, st, recv, args, kwargs):
        st.emit(Ev("blocks", "sleep"))
        return [(st, NONE)]

    def later(self, it, st, recv, args, kwargs):
        t = T("later", args[0], K(st.nev))
        if args[0] == NONE:
            st.user["expected"] = st.user.get("expected", ()) + ((t, NONE),)
            return [(st, t)]
        i = st.user.get("produced", 0)
        st.user["produced"] = i + 1
        x = self.items[i] if i < len(self.items) else StopAsyncIteration
        st.user["expected"] = st.user.get("expected", ()) + ((t, x if isinstance(x, type) else K(x)),)
        return [(st, t)]

    def next_item(self, it, st, recv, args, kwargs):
        i = st.user.get("produced", 0)
        st.user["produced"] = i + 1
        if i >= len(self.items):
            st.emit(Ev("stageends", "StopIteration"))
            return [it.raise_new(st, "StopIteration")]
        x = self.items[i]
        if x is self.thing[0]:
            return it.call(st, self.thing[1], [], {}, None, it.main_fr)
        if isinstance(x, type) and issubclass(x, BaseException):
            st.emit(Ev("stagefails", x.__name__))
            st.user["raised"] = True
            return [it.raise_new(st, x.__name__)]
        return [(st, K(x))]

    def os_write(self, it, st, recv, args, kwargs):
        from ..values import T as T_
        fd = self.num(st, args[0])
        st.emit(Ev("write", "os.write", args=[K(fd)] + [st.res(a) for a in args[1:]], extra=self.use_ready(st, fd)))
        n = T_("sym", "written%d" % st.nev)
        st.tinfo[n] = "int"
        v = st.res(args[1])
        if isinstance(v, K) and isinstance(v.v, (bytes, bytearray)):
            out = []
            if self.partial and len(v.v) > 1:
                s = st.fork()
                s.user["written"] = s.user.get("written", ()) + ((self.num(s, args[0]), v.v[:len(v.v) // 2]),)
                out.append((s, K(len(v.v) // 2)))
            st.user["written"] = st.user.get("written", ()) + ((self.num(st, args[0]), v.v),)
            return out + [(st, K(len(v.v)))]
        st.user["written"] = st.user.get("written", ()) + ((self.num(st, args[0]), None),)
        return [(st, n)]

    def os_read(self, it, st, recv, args, kwargs):
        fd = self.num(st, args[0])
        st.emit(Ev("read", "os.read", args=[K(fd)] + [st.res(a) for a in args[1:]], extra=self.use_ready(st, fd)))
        d = dict(st.user.get("input", {}))
        left = d.get(fd, self.chunks)
        if not left:
            return [(st, K(b""))]
        d[fd] = left[1:]
        st.user["input"] = d
        return [(st, K(left[0]))]

    def use_ready(self, st, fd):
        """Whether fd is known to be ready in this very step, which using it once makes unknown."""
        r = st.user.get("ready", ())
        st.user["ready"] = tuple(x for x in r if x != fd)
        return fd in r or fd in st.user.get("nonblocking", ())

    def set_blocking(self, it, st, recv, args, kwargs):
        if st.res(args[1]) == FALSE:
            st.user["nonblocking"] = st.user.get("nonblocking", ()) + (self.num(st, args[0]),)
        return [(st, NONE)]

    def watch(self, it, st, recv, args, kwargs):
        return None

    def ext_call(self, it, st, name, recv, args, kwargs):
        if name in (".add_reader", ".add_writer", ".remove_reader", ".remove_writer"):
            fd = self.num(st, args[0])
            key = "readers" if name.endswith("reader") else "writers"
            d = dict(st.user.get(key, {}))
            if name.startswith(".add"):
                d[fd] = tuple(args[1:])
                r = NONE
            else:
                r = K(d.pop(fd, None) is not None)
            st.user[key] = d
            st.emit(Ev("watch", name, args=(K(fd),)))
            return [(st, r)]
        if name == ".add_signal_handler":
            d = dict(st.user.get("sighandlers", {}))
            d[st.res(args[0])] = tuple(args[1:])
            st.user["sighandlers"] = d
            return [(st, NONE)]
        return LaunchHooks.ext_call(self, it, st, name, recv, args, kwargs)

    # -- the loop ---------------------------------------------------------------------
    def unwrap(self, st, v):
        return v.args[0] if isinstance(v, T) and v.op == "shield" else v

    def finished(self, st, v):
        """None, or the outcome of awaiting v."""
        if isinstance(v, Ref) and st.obj(v).kind == "future":
            ob = st.obj(v)
            if ob.meta["done"] != TRUE:
                return None
            if ob.meta.get("cancelled") == TRUE:
                return "cancelled"
            if "exc" in ob.meta:
                return Abrupt(("raise", ob.meta["exc"]))
            return ob.meta.get("result", NONE)
        if isinstance(v, T) and v.op == "later":
            r = dict(st.user.get("arrived", ())).get(v)
            return Abrupt(("stop", "arrives")) if isinstance(r, type) else r
        return NONE

    def on_await(self, it, st, v):
        w = self.unwrap(st, v)
        if isinstance(w, Ref) and st.obj(w).kind == "future":
            return self.wait_for(it, st, w, w is not v)
        if isinstance(w, T) and w.op == "later":
            return self.wait_for(it, st, w, False)
        return LaunchHooks.on_await(self, it, st, v)

    def wait_for(self, it, st, w, shielded):
        out = []
        todo = [st]
        me = st.user.get("current")
        while todo:
            s = todo.pop()
            s.user["current"] = me
            s.user["ready"] = s.user["polled"] = ()
            r = self.finished(s, w)
            if r is not None:
                if self.lag and r != "cancelled":
                    # what waits is resumed by the loop, which can notice a signal before it does
                    todo += [s3 for s3, r3 in self.fire_all(it, s, self.signals(s), w) if not isinstance(r3, Abrupt)]
                if r == "cancelled":
                    out.append(it.raise_new(s, "asyncio.CancelledError"))
                elif isinstance(r, Abrupt) and r.out == ("stop", "arrives"):
                    x = dict(s.user["arrived"])[w]
                    s.emit(Ev("stageends" if x is StopAsyncIteration else "stagefails", x.__name__))
                    out.append(it.raise_new(s, x.__name__))
                else:
                    out.append((s, r))
                continue
            evs = self.events(it, s)
            if me in s.user.get("cancels", ()):
                c = s.fork()
                c.user["cancels"] = tuple(x for x in c.user["cancels"] if x != me)
                c.user["cancelled"] = c.user.get("cancelled", ()) + (me,)
                c.emit(Ev("cancel", "cancel", args=(K(me),)))
                if not shielded and isinstance(w, Ref):
                    c.mut(w).meta["done"] = TRUE
                    c.mut(w).meta["cancelled"] = TRUE
                out.append(it.raise_new(c, "asyncio.CancelledError"))
            fired = self.fire_all(it, s, evs, w)
            if not fired:
                outer = s.user.get("stack", ())
                if any(self.finished(s, o) is not None for o in outer):
                    out.append((s, Abrupt(("stop", "order"))))
                else:
                    s.emit(Ev("stuck", "await", args=(w,)))
                    s.user["stuck"] = s.user.get("current")
                    out.append((s, Abrupt(("stop", "stuck"))))
                continue
            for s3, r3 in fired:
                if isinstance(r3, Abrupt):
                    out.append((s3, r3))
                else:
                    todo.append(s3)
            it.limit(len(todo) + len(out))
        return out

    def fire_all(self, it, st, evs, w=None):
        """Every event, each on its own copy; readiness nobody reacts to is no event."""
        out = []
        keep = st.user.get("stack", ())
        for ev in evs:
            s2 = st.fork()
            n = s2.nev
            if w is not None:
                s2.user["stack"] = keep + (w,)
            for s3, r3 in self.fire(it, s2, ev):
                s3.user["stack"] = keep
                if ev[0] in ("readable", "writable") and not isinstance(r3, Abrupt) and not any(
                        e.kind in EFFECTS for e in s3.trace()[n:]):
                    continue
                out.append((s3, r3))
        return out

    def drain(self, it, st):
        """Everything that is still to happen, in every order."""
        out = []
        todo = [st]
        while todo:
            s = todo.pop()
            fired = self.fire_all(it, s, self.events(it, s))
            if not fired:
                out.append((s, NONE))
            for s3, r3 in fired:
                if isinstance(r3, Abrupt):
                    out.append((s3, r3))
                else:
                    todo.append(s3)
            it.limit(len(todo) + len(out))
        return out

    def signals(self, st):
        return [e for e in st.user.get("todo", ()) if e[0] == "signal" and set(e[2:]) <= set(st.user.get("started", ()))]

    def events(self, it, st):
        tasks = st.user.get("tasks", ())
        out = []
        if self.tasks_first == "free":
            out += [("task", t) for t in tasks[:2] + tasks[2:][-1:]]
            tasks = ()
        elif self.tasks_first == "late":
            early = tuple(t for t in tasks if t[0] not in st.user.get("launched", ()))
            if not early:
                out += [("task", t) for t in tasks]
            tasks = early
        if tasks:
            # tasks start before anything else is noticed, except what is awaited right away
            out.append(("task", tasks[0] if self.tasks_first == "fifo" else tasks[-1]))
        for e in st.user.get("todo", ()):
            if e[0] == "exit" and e[1] > 1000 + st.user.get("forks", 0):
                continue
            if e[0] in ("exit", "change") and any(
                    o[1] == e[1] for o in st.user["todo"][:st.user["todo"].index(e)] if o[0] in ("exit", "change")):
                continue
            if tasks and (e[0] != "do"):
                continue
            if e[0] == "signal" and not set(e[2:]) <= set(st.user.get("started", ())):
                continue
            if e[0] == "do" and not set(e[3:]) <= set(n for n, _, _, _ in st.user.get("ended", ())):
                continue
            out.append(e)
        if tasks:
            return out
        for t, x in st.user.get("expected", ()):
            out.append(("arrive", t))
        nread = st.user.get("nreads", 0)
        for fd in sorted(st.user.get("readers", {}), key=str):
            if nread >= self.max_ready:
                break
            if fd in self.table(st) and self.table(st)[fd][0][0] == "signalfd":
                continue
            out.append(("readable", fd))
        n = st.user.get("nwrites", 0)
        for fd in sorted(st.user.get("writers", {}), key=str):
            if n < self.max_ready:
                out.append(("writable", fd))
        if self.enabled_more:
            out += self.enabled_more(it, st)
        if self.exits_last and any(e[0] != "exit" for e in out):
            out = [e for e in out if e[0] != "exit"]
        return out

    def fire(self, it, st, ev):
        kind = ev[0]
        st.user["happened"] = st.user.get("happened", ()) + (ev[:2],)
        if ev in st.user.get("todo", ()):
            t = list(st.user["todo"])
            t.remove(ev)
            st.user["todo"] = tuple(t)
        st.emit(Ev("event", kind, args=[K(x) for x in ev[1:] if isinstance(x, (int, str))]))
        st.note(("then",) + tuple(x for x in ev if isinstance(x, (int, str))))
        fr = it.main_fr
        prev = st.user.get("current")
        st.user["current"] = None
        st.user["ready"] = st.user["polled"] = ()
        if kind == "arrive":
            x = dict(st.user["expected"])[ev[1]]
            st.user["expected"] = tuple(e for e in st.user["expected"] if e[0] != ev[1])
            st.user["arrived"] = st.user.get("arrived", ()) + ((ev[1], x),)
            return [(st, NONE)]
        if kind == "task":
            st.user["tasks"] = tuple(t for t in st.user["tasks"] if t[0] != ev[1][0])
            what = ev[1][1]
            if isinstance(what, Ref):
                res = it.await_(st, what, None, fr)
                for s, r in res:
                    if isinstance(r, Abrupt) and r.out[0] != "raise":
                        continue
                    m = s.mut(ev[1][2]).meta
                    m["done"] = TRUE
                    if isinstance(r, Abrupt):
                        m["exc"] = r.out[1]
                    else:
                        m["result"] = r
            else:
                res = it.call(st, what[0], list(what[1:]), {}, None, fr)
            return self.contained(res, "task")
        if kind == "exit" or kind == "change":
            pid, how = ev[1], ev[2]
            v = sg.status(how, pid)
            st.user["wait"] = st.user.get("wait", ()) + ((K(pid), v),)
            if kind == "exit":
                st.user["exited"] = st.user.get("exited", ()) + ((pid, how),)
                st.user["reaped"] = st.user.get("reaped", ()) + (pid,)
            return self.signal(it, st, sg.SIGCHLD)
        if kind == "signal":
            return self.signal(it, st, ev[1])
        if kind in ("readable", "writable"):
            cb = st.user["readers" if kind == "readable" else "writers"][ev[1]]
            if kind == "writable":
                st.user["nwrites"] = st.user.get("nwrites", 0) + 1
            else:
                st.user["nreads"] = st.user.get("nreads", 0) + 1
            st.user["ready"] = (ev[1],)
            return self.contained(it.call(st, cb[0], list(cb[1:]), {}, None, fr), "callback")
        if kind == "do":
            st.user["current"] = ev[1]
            st.user["started"] = st.user.get("started", ()) + (ev[1],)
            out = []
            for s, r in it.call(st, FnV(ev[2], None), list(st.user.get("doargs", ())), {}, None, fr):
                if isinstance(r, Ref) and s.obj(r).kind == "coro":
                    rs = it.await_(s, r, None, fr)
                else:
                    rs = [(s, r)]
                for s2, r2 in rs:
                    if isinstance(r2, Abrupt) and r2.out[0] != "raise":
                        out.append((s2, r2))
                        continue
                    s2.user["ended"] = s2.user.get("ended", ()) + (
                        (ev[1], r2, tuple(s2.user.get("exited", ())), s2.nev),)
                    s2.user["current"] = prev
                    out.append((s2, NONE))
            return out
        raise AnalysisError("unknown event %r" % (ev,))

    def signal(self, it, st, signo):
        fr = it.main_fr
        if self.backend == "manager_signalfd":
            st.user["sigs"] = st.user.get("sigs", ()) + (K(signo),)
            cbs = [cb for fd, cb in sorted(st.user.get("readers", {}).items())
                   if fd in self.table(st) and self.table(st)[fd][0][0] == "signalfd"]
        else:
            cbs = [cb for k, cb in st.user.get("sighandlers", {}).items() if k == K(signo)]
        res = [(st, NONE)]
        for cb in cbs:
            res = it.bind(res, lambda s, _: self.contained(
                it.call(s, cb[0], list(cb[1:]), {}, None, fr), "callback"))
        return res

    def contained(self, results, what):
        """The loop reports what a task or callback raises, and goes on."""
        out = []
        for s, r in results:
            if isinstance(r, Abrupt) and r.out[0] == "raise":
                s.user["errors"] = s.user.get("errors", ()) + ((what, cls_name(exc_class(s, r)), exc_loc(s, r)),)
                s.emit(Ev("looperror", what, args=(r.out[1],)))
                r = NONE
            out.append((s, r))
        return out


class World(Launch):
    """A scenario with an event loop: f() is called, then the things to do happen in every order."""

    def __init__(self, chk, source, backend="manager_asyncio", tasks="fifo", todo=(), items=("x",), chunks=(b"a\n",),
                 cancels=()):
        Launch.__init__(self, chk, SRC + source, hooks=lambda prog, fork, limit: SchedHooks(prog, "parent", limit, backend))
        self.hooks.globs_[("pieshell.signalio", "manager")] = ModV("pieshell.signalio." + backend)
        self.hooks.tasks_first = tasks
        self.hooks.items = items
        self.hooks.chunks = chunks
        self.it.main_fr = self.run.fr
        self.init_log()
        st = self.st
        for i in range(8):
            for k in sg.KINDS:
                v = sg.status_value(k, 1000 + i)
                st.neq[v] = frozenset([K(0), NONE])
                st.tinfo[v] = "int"
        for rel, fn in (("signalio/%s.py" % backend, "make_signal_manager"),
                        ("pipeline/running.py", "make_stop_signal_handler")):
            res = [s for s, v in self.it.call(st, FnV(self.prog.func(rel, fn)), [], {}, None, self.run.fr)
                   if not isinstance(v, Abrupt)]
            if len(res) != 1:
                raise AnalysisError("%s has %d outcomes" % (fn, len(res)))
            st = res[0]
        st.user["todo"] = tuple(e if e[0] != "do" else (e[0], e[1], self.mod.funcs[e[2]]) + tuple(e[3:]) for e in todo)
        st.user["cancels"] = tuple(cancels)
        self.st = st

    def run_all(self, fn="f"):
        """Paths on which f returned and everything that was to happen has: (state, value of f)."""
        st = self.st.fork()
        out = []
        for s, v in self.it.call(st, FnV(self.mod.funcs[fn], None), [], {}, None, self.run.fr):
            if isinstance(v, Ref) and s.obj(v).kind == "coro":
                rs = self.it.await_(s, v, None, self.run.fr)
            else:
                rs = [(s, v)]
            for s1, v1 in rs:
                if isinstance(v1, Abrupt) and v1.out[0] != "raise":
                    out.append((s1, v1))
                    continue
                s1.user["result"] = v1
                s1.user["launched"] = tuple(t[0] for t in s1.user.get("tasks", ()))
                s1.user["doargs"] = (v1,) if not isinstance(v1, Abrupt) else ()
                s1.user["ended"] = s1.user.get("ended", ()) + (
                    ("f", v1, tuple(s1.user.get("exited", ())), s1.nev),)
                for s2, v2 in self.hooks.drain(self.it, s1):
                    out.append((s2, v2 if isinstance(v2, Abrupt) else v1))
        out = [(s, v) for s, v in out if not (isinstance(v, Abrupt) and v.out == ("stop", "order"))]
        self.chk.absorb(self.it, out)
        return out


def end_of(s, h):
    """The future which tells that a stage has ended: the only one its output handler has."""
    for v in s.obj(h).f.values() if isinstance(h, Ref) else ():
        v = s.res(v)
        if isinstance(v, Ref) and s.obj(v).kind == "future":
            return s.obj(v)
    return None
